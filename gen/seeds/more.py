ns = {}
exec(open('/verif/gen/seeds/transport.py').read(), ns)
S, BASE, SHM, LIBS = ns['S'], ns['BASE'], ns['SHM'], ns['LIBS']
DEV = SHM + ['fairmq/' + x + '.cxx' for x in ('PluginManager', 'PluginServices', 'Device', 'DeviceRunner', 'Plugin', 'StateMachine', 'States', 'plugins/config/Config', 'plugins/control/Control')]
MGR = 'fairmq/shmem/Manager.h'
SEEDS = [
 S('po-partial-update', 'C09', [('fairmq/ProgOptions.cxx', '''            LOG(debug) << "UpdateProperties failed, no property found with key '" << m.first << "'";
            return false;
        }
    }

    map<string, boost::program_options::variable_value>& vm = fVarMap;
    for (const auto& m : input) {
        vm[m.first].value() = m.second;
    }
''', '''            LOG(debug) << "UpdateProperties failed, no property found with key '" << m.first << "'";
            return false;
        }
        static_cast<map<string, boost::program_options::variable_value>&>(fVarMap)[m.first].value() = m.second;
    }
''')], r'''
int main() {
  ProgOptions c; c.SetProperty<int>("aa", 1); c.SetProperty<int>("bb", 1);
  Properties p; p["aa"] = Property(2); p["zz"] = Property(3);
  REQUIRE(!c.UpdateProperties(p));
  REQUIRE(c.GetProperty<int>("aa") == 1);
  REQUIRE(c.Count("zz") == 0);
  Properties q; q["aa"] = Property(5); q["bb"] = Property(6);
  REQUIRE(c.UpdateProperties(q));
  REQUIRE(c.GetProperty<int>("aa") == 5 && c.GetProperty<int>("bb") == 6);
  return 0;
}
''', 'an update of several properties where a known key is followed by an unknown one', 'the refused update has already changed the known properties, without announcing it'),
 S('ch-mixed-parts', 'C12', [('fairmq/Channel.h', '''        for (auto& msg : msgVec) {
            if (fTransportType != msg->GetType()) {
                if (msg->GetSize() > 0) {
                    MessagePtr msgWrapper''', '''        for (auto& msg : msgVec) {
            if (fTransportType == msg->GetType()) {
                break;
            } else {
                if (msg->GetSize() > 0) {
                    MessagePtr msgWrapper''')], r'''
int main() {
  Env e; auto f = TransportFactory::CreateTransportFactory("shmem", "x", &e.c);
  auto z = TransportFactory::CreateTransportFactory("zeromq", "z", &e.c);
  for (auto t : {z, f}) {
    auto o = t == z ? f : z;
    Channel a("push", "pair", t), b("pull", "pair", t);
    std::string addr = "inproc://d" + e.session;
    REQUIRE(a.Bind(addr)); REQUIRE(b.Connect(addr));
    auto mk = [](TransportFactory& tf, const char* s) { auto m = tf.CreateMessage(std::strlen(s)); std::memcpy(m->GetData(), s, std::strlen(s)); return m; };
    for (int mask = 0; mask < 8; ++mask) {
      Parts p;
      p.AddPart(mk(mask & 1 ? *o : *t, "one")); p.AddPart(mk(mask & 2 ? *o : *t, "three")); p.AddPart(mk(mask & 4 ? *o : *t, "seven__"));
      REQUIRE(a.Send(p) == 15);
      Parts q; REQUIRE(b.Receive(q) == 15); REQUIRE(q.Size() == 3);
      REQUIRE(q.At(0)->GetSize() == 3 && q.At(1)->GetSize() == 5 && q.At(2)->GetSize() == 7);
      REQUIRE(std::memcmp(q.At(0)->GetData(), "one", 3) == 0 && std::memcmp(q.At(1)->GetData(), "three", 5) == 0 && std::memcmp(q.At(2)->GetData(), "seven__", 7) == 0);
    }
  }
  return 0;
}
''', 'a multipart message that mixes parts of two transports, a foreign one after one of the own transport', 'the foreign part is sent as if it were a message of the channel\'s transport'),
 S('shm-destroyed-twice', 'C24', [(MGR, '''                            fRegionEventCallback(i);
                            el->second = i.event;
                            ++fNumObservedEvents;''', '''                            fRegionEventCallback(i);
                            ++fNumObservedEvents;''')], r'''
int main() {
  Env e; auto f = TransportFactory::CreateTransportFactory("shmem", "x", &e.c);
  std::atomic<int> created{0}, destroyed{0};
  f->SubscribeToRegionEvents([&](RegionInfo i) { if (!i.managed) { if (i.event == RegionEvent::created) { ++created; } else { ++destroyed; } } });
  auto waitFor = [](std::atomic<int>& v, int n) { for (int i = 0; i < 400 && v < n; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(10)); } return v == n; };
  { auto r = f->CreateUnmanagedRegion(10000, [](void*, size_t, void*) {}); REQUIRE(waitFor(created, 1)); }
  REQUIRE(waitFor(destroyed, 1));
  { auto r = f->CreateUnmanagedRegion(10000, [](void*, size_t, void*) {}); REQUIRE(waitFor(created, 2));
    std::this_thread::sleep_for(std::chrono::milliseconds(200));
    REQUIRE(destroyed == 1); }
  REQUIRE(waitFor(destroyed, 2));
  std::this_thread::sleep_for(std::chrono::milliseconds(200));
  REQUIRE(destroyed == 2 && created == 2);
  f->UnsubscribeFromRegionEvents();
  return 0;
}
''', 'a subscriber that has seen a region come and go, and a further region event after that', 'the end of a region is reported again with every later region event'),
 S('mon-path-region-left', 'C25', [('fairmq/shmem/Monitor.cxx', '''                    result.emplace_back(Remove<bipc::file_mapping>(path + MakeShmName(shmId, "rg", id), verbose));
                } else {
                    result.emplace_back(Remove<bipc::shared_memory_object>(MakeShmName(shmId, "rg", id), verbose));
                }
''', '''                    result.emplace_back(Remove<bipc::file_mapping>(path + MakeShmName(shmId, "rg", id), verbose));
                    if (result.back().second) {
                        continue;
                    }
                } else {
                    result.emplace_back(Remove<bipc::shared_memory_object>(MakeShmName(shmId, "rg", id), verbose));
                }
''')], r'''
#include <sys/wait.h>
#include <unistd.h>
#include <sys/stat.h>
#include <boost/interprocess/ipc/message_queue.hpp>
#include <boost/interprocess/shared_memory_object.hpp>
#include <boost/interprocess/file_mapping.hpp>
int main() {
  std::string session = tools::Uuid();
  std::string shmId = shmem::makeShmIdStr(session);
  char cwd[4096]; REQUIRE(getcwd(cwd, sizeof cwd));
  mkdir("d", 0700);
  std::string dir = std::string(cwd) + "/d/";
  pid_t p = fork();
  if (p == 0) { // a process that dies without cleaning up
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", 20000000); c.SetProperty<bool>("shm-monitor", false);
    auto f = TransportFactory::CreateTransportFactory("shmem", "x", &c);
    RegionConfig cfg; cfg.path = dir; cfg.id = 7;
    auto r = f->CreateUnmanagedRegion(10000, [](void*, size_t, void*) {}, cfg);
    auto s = f->CreateUnmanagedRegion(10000, [](void*, size_t, void*) {}, RegionConfig());
    _exit(0);
  }
  int st; waitpid(p, &st, 0); REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  shmem::Monitor::Cleanup(shmem::SessionId{session}, false);
  // nothing of the session is left (whatever is left is removed here)
  bool q = boost::interprocess::message_queue::remove(shmem::MakeShmName(shmId, "rgq", 7).c_str());
  bool rc = boost::interprocess::shared_memory_object::remove(shmem::MakeShmName(shmId, "rrc", 7).c_str());
  bool rg = boost::interprocess::file_mapping::remove((dir + shmem::MakeShmName(shmId, "rg", 7)).c_str());
  bool mng = boost::interprocess::shared_memory_object::remove(shmem::MakeShmName(shmId, "mng").c_str());
  REQUIRE(!q); REQUIRE(!rc); REQUIRE(!rg); REQUIRE(!mng);
  return 0;
}
''', 'a crashed session with an unmanaged region whose memory is a file under a path', 'the acknowledgement queue and the reference counts of that region stay behind'),
 S('shm-stale-region-cache', 'C22', [(MGR, '''                    fShmRegions->at(id).fDestroyed = true;
                    (fEventCounter->fCount)++;
                }
            }
        } catch (std::out_of_range& oor) {
            LOG(debug) << "RemoveRegion() could not locate region with id '" << id << "'";
        }
        fRegionsGen += 1; // signal TL cache invalidation
''', '''                    fShmRegions->at(id).fDestroyed = true;
                    (fEventCounter->fCount)++;
                    fRegionsGen += 1; // signal TL cache invalidation
                }
            }
        } catch (std::out_of_range& oor) {
            LOG(debug) << "RemoveRegion() could not locate region with id '" << id << "'";
        }
''')], r'''
int main() {
  Env e; auto f = TransportFactory::CreateTransportFactory("shmem", "x", &e.c);
  Channel a("push", "pair", f), b("pull", "pair", f);
  std::string addr = "inproc://d" + e.session;
  REQUIRE(a.Bind(addr)); REQUIRE(b.Connect(addr));
  {
    RegionConfig cfg; cfg.id = 5; cfg.removeOnDestruction = false;
    auto r = f->CreateUnmanagedRegion(100000, [](void*, size_t, void*) {}, cfg);
    std::memcpy(r->GetData(), "0123456789", 10);
    for (int i = 0; i < 2; ++i) { auto m = a.NewMessage(r, r->GetData(), 10); REQUIRE(a.Send(m) == 10); }
    auto m = b.NewMessage(); REQUIRE(b.Receive(m) == 10); REQUIRE(std::memcmp(m->GetData(), "0123456789", 10) == 0);
  }
  // the region's memory stays (not removed on destruction): the second message is still good
  auto m = b.NewMessage(); REQUIRE(b.Receive(m) == 10);
  REQUIRE(m->GetData() != nullptr && std::memcmp(m->GetData(), "0123456789", 10) == 0);
  return 0;
}
''', 'a region that outlives its controller (not removed on destruction), with a message of it read by the same thread before and after', 'the thread goes on using the cached pointer to the removed region object'),
 S('shm-alloc-uninterruptible', 'C14', [(MGR, '''                if (Interrupted()) {
                    throw MessageBadAlloc(''', '''                if (Interrupted() && fBadAllocMaxAttempts >= 0) {
                    throw MessageBadAlloc(''')], r'''
int main() {
  Env e; e.c.SetProperty<size_t>("shm-segment-size", 5000000); e.c.SetProperty<int>("bad-alloc-max-attempts", -1); e.c.SetProperty<int>("bad-alloc-attempt-interval", 10);
  auto f = TransportFactory::CreateTransportFactory("shmem", "x", &e.c);
  auto m = f->CreateMessage(3000000);
  std::atomic<bool> done{false}, thrown{false};
  std::thread t([&] { try { auto n = f->CreateMessage(3000000); } catch (MessageBadAlloc&) { thrown = true; } done = true; });
  std::this_thread::sleep_for(std::chrono::milliseconds(100));
  REQUIRE(!done || (t.join(), false));
  f->Interrupt();
  for (int i = 0; i < 500 && !done; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
  bool ok = done && thrown;
  m.reset();
  t.join();
  REQUIRE(ok);
  return 0;
}
''', 'a segment that is full, a factory configured to retry without limit, and an interruption', 'the allocation goes on waiting: the device cannot leave its state'),
 S('pm-prefix-first', 'C27', [('fairmq/PluginManager.cxx', '''    for (const auto& searchPath : SearchPaths()) {
        for (const auto& libPrefix : {fgkLibPrefix, fgkLibPrefixAlt}) {
            auto const file''', '''    for (const auto& libPrefix : {fgkLibPrefix, fgkLibPrefixAlt}) {
        for (const auto& searchPath : SearchPaths()) {
            auto const file''')], r'''
#include <fairmq/PluginManager.h>
#include <filesystem>
#include <fstream>
int main() {
  namespace fs = std::filesystem;
  auto d = fs::current_path() / "search"; fs::create_directories(d / "first"); fs::create_directories(d / "second");
  std::ofstream(d / "first" / "libFairMQPlugin_x.so") << "1";
  std::ofstream(d / "second" / "libfairmq-plugin-x.so") << "2";
  std::ofstream(d / "second" / "libfairmq-plugin-y.so") << "2";
  PluginManager pm;
  pm.SetSearchPaths({d / "first", d / "second"});
  REQUIRE(pm.SearchPluginFile("x") == d / "first" / "libFairMQPlugin_x.so");
  REQUIRE(pm.SearchPluginFile("y") == d / "second" / "libfairmq-plugin-y.so");
  return 0;
}
''', 'a plugin that is present in two search directories, under the alternative name in the earlier one', 'the plugin of the later directory is loaded'),
 S('dev-callback-done-ignored', 'C13', [('fairmq/Device.cxx', '''                        if (!proceed) {
                            break;
                        }
                    }
                }
                if (!proceed) {
                    break;
                }
            }
        }
    }
}''', '''                        if (!proceed) {
                            break;
                        }
                    }
                }
            }
        }
    }
}''')], r'''
#include <fairmq/Device.h>
struct D : Device {
  std::atomic<int> na{0}, nb{0};
  D() { OnData("a", [this](MessagePtr&, int) { ++na; return false; }); OnData("b", [this](MessagePtr&, int) { ++nb; return true; }); }
};
int main() {
  fair::Logger::SetConsoleSeverity("nolog");
  D d; std::string id = tools::Uuid();
  for (std::string n : {"a", "b"}) { Channel c("pair", "bind", "ipc://" + n); c.UpdateTransport("zeromq"); d.AddChannel(n, std::move(c)); }
  std::thread st([&] { try { d.RunStateMachine(); } catch (std::exception&) {} });
  auto ch = [&](Transition t) { d.ChangeState(t); };
  ch(Transition::InitDevice); d.WaitForState(State::InitializingDevice); ch(Transition::CompleteInit); d.WaitForState(State::Initialized);
  ch(Transition::Bind); d.WaitForState(State::Bound); ch(Transition::Connect); d.WaitForState(State::DeviceReady);
  ch(Transition::InitTask); d.WaitForState(State::Ready);
  ProgOptions c; auto z = TransportFactory::CreateTransportFactory("zeromq", "z", &c);
  Channel a("a", "pair", z), b("b", "pair", z); a.Connect("ipc://a"); b.Connect("ipc://b");
  auto m = a.NewSimpleMessage(std::string("x")); a.Send(m); auto n = b.NewSimpleMessage(std::string("y")); b.Send(n);
  std::this_thread::sleep_for(std::chrono::milliseconds(500));
  ch(Transition::Run);
  bool ready = false;
  StateQueue q;
  for (int i = 0; i < 300 && !ready; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(10)); ready = d.na + d.nb > 0 && d.GetCurrentState() == State::Ready; }
  int na = d.na, nb = d.nb;
  if (!ready) { ch(Transition::Stop); d.WaitForState(State::Ready); }
  ch(Transition::ResetTask); d.WaitForState(State::DeviceReady); ch(Transition::ResetDevice); d.WaitForState(State::Idle); ch(Transition::End);
  st.join();
  std::cout << ready << na << nb << std::endl;
  return ready && na == 1 && nb == 0 ? 0 : 1;
}
''', 'two input channels that have data in the same poll, where the callback of the first one is done', 'the run goes on although a callback was done: the result of the next callback hides it'),
 S('shm-alignment-beyond-page', 'C39', [('fairmq/shmem/Common.h', '''        return HdrPartSize() + alignment + size;''', '''        return HdrPartSize() + (alignment < 4096 ? alignment : 4096) + size;''')], r'''
#include <vector>
int main() {
  Env e; auto f = TransportFactory::CreateTransportFactory("shmem", "x", &e.c);
  for (size_t al : {size_t(16), size_t(64), size_t(4096), size_t(65536)}) {
    std::vector<MessagePtr> v;
    for (int i = 0; i < 20; ++i) { v.push_back(f->CreateMessage(1000, Alignment{al})); REQUIRE(reinterpret_cast<uintptr_t>(v.back()->GetData()) % al == 0); v.push_back(f->CreateMessage(3000)); }
    for (size_t i = 0; i < v.size(); ++i) { for (size_t k = 0; k < v.size(); ++k) { if (i != k) {
      auto a = static_cast<char*>(v[i]->GetData()), b = static_cast<char*>(v[k]->GetData());
      REQUIRE(a + v[i]->GetSize() <= b || b + v[k]->GetSize() <= a);
    } } }
  }
  return 0;
}
''', 'a shared memory message aligned to more than a page', 'its buffer reaches beyond the memory allocated for it, into another message'),
]
DEVS = ('dev-callback-done-ignored', 'pm-prefix-first')
for s in SEEDS:
    if s['id'] in DEVS:
        s['srcs'] = DEV

SEEDS += [
 S('ph-long-double-event', 'C08', [('fairmq/Properties.cxx', '''em.Emit<PropertyChange, long double>(k, any_cast<long double>(p));''', '''em.Emit<PropertyChange, double>(k, static_cast<double>(any_cast<long double>(p)));''')], r'''
int main() {
  ProgOptions c; int ld = 0, d = 0; long double got = 0;
  c.Subscribe<long double>("x", [&](const std::string&, long double v) { ++ld; got = v; });
  c.Subscribe<double>("x", [&](const std::string&, double) { ++d; });
  c.SetProperty<long double>("k", 1.5L); REQUIRE(ld == 1 && got == 1.5L && d == 0);
  Properties p; p["k"] = Property(2.5L);
  c.SetProperties(p); REQUIRE(ld == 2 && got == 2.5L && d == 0);
  return 0;
}
''', 'a long double property set through SetProperties, and a subscriber to that type', 'the change is announced to the subscribers of another type'),
 S('em-emit-under-lock', 'C21', [('fairmq/EventManager.h', '''        (*GetSignal<E, Args...>(signalsKey))(key, std::forward<Args>(args)...);''', '''        auto const signal = GetSignal<E, Args...>(signalsKey);
        std::lock_guard<std::mutex> lock{fMutex};
        (*signal)(key, std::forward<Args>(args)...);''')], r'''
int main() {
  ProgOptions c; int a = 0, b = 0;
  c.Subscribe<int>("x", [&](const std::string&, int) { ++a; if (a == 1) { c.Subscribe<int>("y", [&](const std::string&, int) { ++b; }); } });
  c.SetProperty<int>("k", 1); c.SetProperty<int>("k", 2);
  REQUIRE(a == 2 && b == 1);
  return 0;
}
''', 'a callback of an event that subscribes, unsubscribes or emits on the same event manager', 'the thread waits for a lock it holds itself'),
 S('ps-uncontrolled-change', 'C26', [('fairmq/PluginServices.cxx', '''    if (!fDeviceController) fDeviceController = controller;

    if (fDeviceController == controller) {
        return fDevice.ChangeState(next);''', '''    if (!fDeviceController || fDeviceController == controller) {
        return fDevice.ChangeState(next);''')], r'''
#include <fairmq/PluginServices.h>
#include <fairmq/Device.h>
int main() {
  fair::Logger::SetConsoleSeverity("nolog");
  ProgOptions c; Device d; PluginServices ps(c, d);
  REQUIRE(!ps.GetDeviceController());
  ps.ChangeDeviceState("a", PluginServices::DeviceStateTransition::End);
  REQUIRE(ps.GetDeviceController() && *ps.GetDeviceController() == "a");
  bool refused = false;
  try { ps.TakeDeviceControl("b"); } catch (PluginServices::DeviceControlError&) { refused = true; }
  REQUIRE(refused);
  return 0;
}
''', 'a plugin that changes the device state without taking control first, and another plugin', 'the first plugin does not become the controller: two plugins can drive the device'),
 S('zmq-last-peer-stays', 'C38', [('fairmq/zeromq/Common.h', '''                if (count > 0) {
                    --count;
                } else {''', '''                if (count > 1) {
                    --count;
                } else {''')], r'''
int main() {
  ProgOptions c; auto z = TransportFactory::CreateTransportFactory("zeromq", "z", &c);
  Channel a("a", "push", z); REQUIRE(a.Bind("ipc://a"));
  auto waitFor = [&](unsigned long n) { for (int i = 0; i < 500 && a.GetNumberOfConnectedPeers() != n; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(10)); } return a.GetNumberOfConnectedPeers() == n; };
  REQUIRE(waitFor(0));
  { auto y = TransportFactory::CreateTransportFactory("zeromq", "y", &c);
    Channel b("b", "pull", y), d("d", "pull", y); REQUIRE(b.Connect("ipc://a")); REQUIRE(waitFor(1)); REQUIRE(d.Connect("ipc://a")); REQUIRE(waitFor(2)); }
  REQUIRE(waitFor(0));
  return 0;
}
''', 'a bound channel whose last peer disconnects', 'the last peer is counted as connected for ever'),
 S('zmq-resubscribe-detach', 'C29', [('fairmq/zeromq/Context.h', '''                fRegionEventsSubscriptionActive = false;
            }
            fRegionEventsCV.notify_one();
            fRegionEventThread.join();''', '''                fRegionEventsSubscriptionActive = false;
            }
            fRegionEventsCV.notify_one();
            fRegionEventThread.detach();''')], r'''
int main() {
  ProgOptions c; auto z = TransportFactory::CreateTransportFactory("zeromq", "z", &c);
  std::atomic<bool> started{false}, inA{false};
  z->SubscribeToRegionEvents([&](RegionInfo) { inA = true; started = true; std::this_thread::sleep_for(std::chrono::milliseconds(500)); inA = false; });
  for (int i = 0; i < 500 && !started; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
  REQUIRE(started && inA);
  z->SubscribeToRegionEvents([&](RegionInfo) {});
  bool still = inA; // the first callback must be finished
  std::this_thread::sleep_for(std::chrono::milliseconds(700));
  if (still) { std::cout << "first subscription still running" << std::endl; std::quick_exit(1); }
  z->UnsubscribeFromRegionEvents();
  return 0;
}
''', 'a second subscription to region events of the same transport', 'the thread of the first subscription is not waited for: it outlives its transport', ),
 S('ctl-shutdown-bound', 'C28', [('fairmq/plugins/control/Control.cxx', '''            case DeviceState::Initialized:
            case DeviceState::Bound:
            case DeviceState::DeviceReady:
                ChangeDeviceState(DeviceStateTransition::ResetDevice);''', '''            case DeviceState::Initialized:
            case DeviceState::DeviceReady:
                ChangeDeviceState(DeviceStateTransition::ResetDevice);''')], r'''
#include <fairmq/DeviceRunner.h>
#include <fairmq/Device.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
struct D : Device { void Run() override { while (!NewStatePending()) { std::this_thread::sleep_for(std::chrono::milliseconds(5)); } } };
int main() {
  int fd[2]; REQUIRE(pipe(fd) == 0);
  pid_t p = fork();
  if (p == 0) {
    dup2(fd[0], 0); close(fd[0]); close(fd[1]);
    std::vector<std::string> a{"demo", "--id", "x", "--severity", "nolog", "--control", "interactive", "--color", "false", "--catch-signals", "0"};
    std::vector<char*> v; for (auto& s : a) { v.push_back(&s[0]); }
    DeviceRunner r(static_cast<int>(v.size()), v.data(), false);
    r.AddHook<hooks::InstantiateDevice>([](DeviceRunner& d) { d.fDevice = std::make_unique<D>(); });
    _exit(r.RunWithExceptionHandlers());
  }
  for (char ch : std::string("..stdibq")) { std::this_thread::sleep_for(std::chrono::milliseconds(800)); if (ch != '.') { if (write(fd[1], &ch, 1) != 1) { break; } } }
  int st = 0; bool ended = false;
  for (int i = 0; i < 1500 && !ended; ++i) { ended = waitpid(p, &st, WNOHANG) == p; std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
  if (!ended) { kill(p, SIGKILL); waitpid(p, &st, 0); }
  REQUIRE(ended); REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  return 0;
}
''', 'an interactive session that ends (q) while the device is in the BOUND state', 'the shutdown sequence requests nothing in that state: the device never ends'),
 S('dr-foreign-exception', 'C37', [('fairmq/DeviceRunner.cxx', '''    } catch (...) {
        LOG(error) << "Uncaught exception reached the top of DeviceRunner.";
        return 1;
    }
}''', '''    }
}''')], r'''
#include <fairmq/DeviceRunner.h>
#include <fairmq/Device.h>
int main() {
  std::vector<std::string> a{"demo", "--id", "x", "--severity", "nolog", "--control", "none"};
  std::vector<char*> v; for (auto& s : a) { v.push_back(&s[0]); }
  fair::Logger::SetConsoleSeverity("nolog");
  DeviceRunner r(static_cast<int>(v.size()), v.data(), false);
  r.AddHook<hooks::ModifyRawCmdLineArgs>([](DeviceRunner&) { throw 5; });
  int rc = 0;
  try { rc = r.RunWithExceptionHandlers(); } catch (...) { rc = -1; }
  REQUIRE(rc == 1);
  return 0;
}
''', 'a user hook that throws something that is not a std::exception', 'the exception leaves the runner instead of becoming a failure result'),
]
for s in SEEDS:
    if s['id'].split('-')[0] in ('dev', 'pm', 'ps', 'ctl', 'dr'):
        s['srcs'] = DEV
