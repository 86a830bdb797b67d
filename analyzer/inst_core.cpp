// Instantiates FairMQ's templates, so that their bodies are type-checked, resolved and exported.
// Never linked or run.
#include <fairmq/Channel.h>
#include <fairmq/Device.h>
#include <fairmq/DeviceRunner.h>
#include <fairmq/Error.h>
#include <fairmq/EventManager.h>
#include <fairmq/JSONParser.h>
#include <fairmq/MemoryResourceTools.h>
#include <fairmq/MemoryResources.h>
#include <fairmq/Parts.h>
#include <fairmq/Plugin.h>
#include <fairmq/PluginManager.h>
#include <fairmq/PluginServices.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/Properties.h>
#include <fairmq/PropertyOutput.h>
#include <fairmq/StateQueue.h>
#include <fairmq/StateMachine.h>
#include <fairmq/Tools.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/tools/InstanceLimit.h>
#include <fairmq/tools/RateLimit.h>
#include <functional>
#include <string>
#include <vector>

namespace fmqx_inst {
using namespace fair::mq;

struct Ev : Event<std::string> { using KeyType = std::string; };
struct Tag { friend std::ostream& operator<<(std::ostream& o, const Tag&) { return o; } };
struct Ser
{
    void Serialize(Message&, int, int) {}
    void Deserialize(Message&, int&, int) {}
};
struct Custom { int x; friend std::ostream& operator<<(std::ostream& o, const Custom&) { return o; } };

inline void events(EventManager& m, std::function<void(std::string, int)> f)
{
    m.Subscribe<Ev, int>("a", f);
    m.Emit<Ev, int>("k", 1);
    m.Unsubscribe<Ev, int>("a");
}

inline void props(ProgOptions& p)
{
    p.SetProperty<int>("k", 1);
    p.SetProperty<std::string>("k", std::string());
    p.SetProperty<const char*>("k", "v");
    (void)p.GetProperty<int>("k");
    (void)p.GetProperty<int>("k", 2);
    (void)p.GetProperty<std::string>("k");
    (void)p.GetProperty<std::string>("k", std::string());
    (void)p.UpdateProperty<int>("k", 1);
    (void)p.UpdateProperty<std::string>("k", std::string());
    p.Subscribe<int>("s", [](const std::string&, int) {});
    p.Unsubscribe<int>("s");
    (void)p.GetValue<int>("k");
    (void)p.SetValue<int>("k", 1);
    PropertyHelper::AddType<Custom>("l");
}

inline void plugin(Plugin& p, PluginServices& s)
{
    p.SetProperty<int>("k", 1);
    (void)p.UpdateProperty<int>("k", 1);
    (void)p.GetProperty<int>("k");
    (void)p.GetProperty<int>("k", 1);
    p.SubscribeToPropertyChange<int>([](const std::string&, int) {});
    p.UnsubscribeFromPropertyChange<int>();
    s.SetProperty<int>("k", 1);
    (void)s.UpdateProperty<int>("k", 1);
    (void)s.GetProperty<int>("k");
    (void)s.GetProperty<int>("k", 1);
    s.SubscribeToPropertyChange<int>("x", [](const std::string&, int) {});
    s.UnsubscribeFromPropertyChange<int>("x");
}

inline void hooksf(DeviceRunner& r)
{
    r.AddHook<hooks::LoadPlugins>([](DeviceRunner&) {});
    r.RemoveHook<hooks::LoadPlugins>();
    r.AddHook<hooks::SetCustomCmdLineOptions>([](DeviceRunner&) {});
    r.AddHook<hooks::ModifyRawCmdLineArgs>([](DeviceRunner&) {});
    r.AddHook<hooks::InstantiateDevice>([](DeviceRunner&) {});
}

inline void channel(Channel& c, std::vector<MessagePtr>& v)
{
    MessagePtr m;
    Parts p;
    c.Send(m);
    c.Send(m, 1);
    c.Receive(m);
    c.Receive(m, 1);
    c.Send(p);
    c.Send(p, 1);
    c.Receive(p);
    c.Receive(p, 1);
    c.Send(v);
    c.Receive(v);
    (void)c.NewMessage();
    (void)c.NewMessage(Alignment{64});
    (void)c.NewMessage(size_t(1));
    (void)c.NewMessage(size_t(1), Alignment{64});
    (void)c.NewSimpleMessage(1);
    (void)c.NewSimpleMessage("abc");
    (void)c.NewSimpleMessage(std::string());
    (void)c.NewStaticMessage(std::string());
    (void)c.NewUnmanagedRegion(size_t(1), [](const std::vector<RegionBlock>&) {}, "", 0);
}

inline void device(Device& d, MessagePtr m, Parts p)
{
    d.Send(m, "c");
    d.Send(m, "c", 0, 1);
    d.Send(p, "c");
    d.Send(p, "c", 0, 1);
    d.Receive(m, "c");
    d.Receive(m, "c", 0, 1);
    d.Receive(p, "c");
    d.Receive(p, "c", 0, 1);
    (void)d.NewMessage();
    (void)d.NewMessageFor("c", 0);
    (void)d.NewSimpleMessage(1);
    (void)d.NewSimpleMessageFor("c", 0, 1);
    (void)d.NewStaticMessage(std::string());
    (void)d.NewStaticMessageFor("c", 0, std::string());
    (void)d.NewUnmanagedRegion(size_t(1), [](const std::vector<RegionBlock>&) {}, "", 0);
    (void)d.NewUnmanagedRegionFor("c", 0, size_t(1), [](const std::vector<RegionBlock>&) {}, "", 0);
    (void)d.NewPoller("a", "b");
    d.Serialize<Ser>(*m, 1, 2);
    int x = 0;
    d.Deserialize<Ser>(*m, x, 2);
}

inline void parts(MessagePtr a, MessagePtr b, MessagePtr c)
{
    Parts p(std::move(a), std::move(b), std::move(c));
    Parts q;
    q.AddPart(std::move(p));
    q.AddPart(MessagePtr(), MessagePtr());
}

inline void queue(StateQueue& q, std::function<bool()> pred)
{
    (void)q.WaitForNext();
    (void)q.WaitForNext(std::chrono::milliseconds(1));
    (void)q.WaitForNextOrCustom(pred);
    (void)q.WaitForCustom(pred);
    q.WaitForState(State::Ok);
    q.WaitForStateOrCustom(State::Ok, pred);
    q.Push(State::Ok);
    q.Push(State::Ok, [] {});
    q.Notify([] {});
    q.Locked([] {});
    q.Clear();
}

inline void memres(ChannelResource* r)
{
    std::vector<int, pmr::polymorphic_allocator<int>> v{pmr::polymorphic_allocator<int>{r}};
    (void)getMessage(std::move(v), r);
}

inline void errs()
{
    RuntimeError e("a", 1);
    tools::InstanceLimiter<Tag, 1> l;
    (void)l.GetCount();
    tools::RateLimiter r(1.f);
    r.maybe_sleep();
}
}   // namespace fmqx_inst
