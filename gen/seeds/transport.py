SHM = ['fairmq/' + x + '.cxx' for x in ('shmem/Common', 'shmem/Manager', 'shmem/Monitor', 'TransportFactory', 'Channel', 'ProgOptions', 'Properties', 'JSONParser', 'SuboptParser', 'EventManager', 'MemoryResources',
                                        'tools/Unique', 'tools/Process', 'tools/Network', 'tools/Semaphore')]
LIBS = '-lzmq -lboost_program_options -lboost_filesystem -lboost_date_time -lrt -ldl'
BASE = r'''
#include <fairmq/shmem/TransportFactory.h>
#include <fairmq/zeromq/TransportFactory.h>
#include <fairmq/shmem/Monitor.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/Channel.h>
#include <fairmq/tools/Unique.h>
#include <iostream>
#include <cstring>
#include <chrono>
#include <thread>
#include <atomic>
using namespace fair::mq;
struct Env {
  std::string session = tools::Uuid();
  ProgOptions c;
  Env() { c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", 20000000); c.SetProperty<bool>("shm-monitor", false); c.SetProperty<uint16_t>("shm-segment-id", 0); }
  ~Env() { shmem::Monitor::Cleanup(shmem::SessionId{session}, false); }
};
#define REQUIRE(x) do { if (!(x)) { std::cout << "failed: " << #x << std::endl; return 1; } } while (0)
'''


def S(id, prop, edits, demo, needs, breaks, **kw):
    return dict(id=id, prop=prop, srcs=SHM, libs=LIBS, edits=edits, demo=BASE + demo, needs=needs, breaks=breaks, **kw)


SOCK = 'fairmq/shmem/Socket.h'
MSG = 'fairmq/shmem/Message.h'
UR = 'fairmq/shmem/UnmanagedRegion.h'
SEEDS = [
 S('shm-empty-part-header', 'C19', [(SOCK, '''            std::memcpy(metas++, &meta, sizeof(MetaHeader));''', '''            std::memcpy(metas, &meta, sizeof(MetaHeader));
            if (shmMsg->fSize > 0 || msg == msgVec.back()) {
                ++metas;
            }''')], r'''
int main() {
  Env e; auto f = TransportFactory::CreateTransportFactory("shmem", "x", &e.c);
  Channel a("push", "pair", f), b("pull", "pair", f);
  std::string addr = "inproc://d" + e.session;
  REQUIRE(a.Bind(addr)); REQUIRE(b.Connect(addr));
  Parts p; p.AddPart(a.NewSimpleMessage(std::string("one"))); p.AddPart(a.NewMessage()); p.AddPart(a.NewSimpleMessage(std::string("three")));
  REQUIRE(a.Send(p) == 8);
  Parts q; REQUIRE(b.Receive(q) == 8);
  REQUIRE(q.Size() == 3);
  REQUIRE(q.At(0)->GetSize() == 3 && q.At(1)->GetSize() == 0 && q.At(2)->GetSize() == 5);
  REQUIRE(std::memcmp(q.At(2)->GetData(), "three", 5) == 0);
  return 0;
}
''', 'a multipart message over shared memory with an empty part before a non-empty one', 'the header of the part after an empty part takes its place: parts arrive with the wrong data'),
 S('shm-empty-parts-uncounted', 'C16', [(SOCK, '''                fMessagesTx++;
                fBytesTx += totalSize;''', '''                if (totalSize > 0) {
                    fMessagesTx++;
                    fBytesTx += totalSize;
                }''')], r'''
int main() {
  Env e; auto f = TransportFactory::CreateTransportFactory("shmem", "x", &e.c);
  Channel a("push", "pair", f), b("pull", "pair", f);
  std::string addr = "inproc://d" + e.session;
  REQUIRE(a.Bind(addr)); REQUIRE(b.Connect(addr));
  Parts p; p.AddPart(a.NewMessage()); p.AddPart(a.NewMessage());
  REQUIRE(a.Send(p) == 0);
  Parts q; REQUIRE(b.Receive(q) == 0);
  REQUIRE(b.GetMessagesRx() == 1);
  REQUIRE(a.GetMessagesTx() == 1);
  return 0;
}
''', 'a multipart message all parts of which are empty', 'a successful send is not counted'),
 S('shm-region-copy-block-lost', 'C18', [(MSG, '''                        if (refCount == 1) {
                            fManager.Deallocate(fShared, fSegmentId);
                            ReleaseUnmanagedRegionBlock();
                        }''', '''                        if (refCount == 1) {
                            fManager.Deallocate(fShared, fSegmentId);
                            if (fSize > 0 || fHint != 0) {
                                ReleaseUnmanagedRegionBlock();
                            }
                        }''')], r'''
int main() {
  Env e; auto f = TransportFactory::CreateTransportFactory("shmem", "x", &e.c);
  auto g = TransportFactory::CreateTransportFactory("shmem", "y", &e.c);
  std::atomic<int> acks{0};
  RegionConfig cfg; cfg.rcSegmentSize = 0;
  auto r = f->CreateUnmanagedRegion(100000, [&](const std::vector<RegionBlock>& b) { acks += b.size(); }, cfg);
  Channel a("push", "pair", f), b("pull", "pair", g);
  std::string addr = "ipc:///tmp/d" + e.session;
  REQUIRE(a.Bind(addr)); REQUIRE(b.Connect(addr));
  {
    MessagePtr m(a.NewMessage(r, r->GetData(), 0, nullptr));
    MessagePtr c(a.NewMessage()); c->Copy(*m);
    REQUIRE(a.Send(c) == 0);
    MessagePtr q(b.NewMessage()); REQUIRE(b.Receive(q) == 0);
    m.reset(); // the receiver holds the last reference
    q.reset();
  }
  for (int i = 0; i < 40 && acks == 0; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(100));
  REQUIRE(acks == 1);
  return 0;
}
''', 'a region without a reference count segment and an empty message of it that was copied', 'the block is never released'),
 S('shm-acks-lost-at-stop', 'C23', [(UR, '''                blocksToSend = std::min(fBlocksToFree.size(), fAckBunchSize);

                copy_n(fBlocksToFree.end() - blocksToSend, blocksToSend, blocks.get());
                fBlocksToFree.resize(fBlocksToFree.size() - blocksToSend);''', '''                blocksToSend = std::min(fBlocksToFree.size(), fAckBunchSize);

                copy_n(fBlocksToFree.end() - blocksToSend, blocksToSend, blocks.get());
                fBlocksToFree.resize(blocksToSend == fAckBunchSize ? fBlocksToFree.size() - blocksToSend : 0);
                blocksToSend = std::min(blocksToSend, fAckBunchSize - 1);''')], r'''
int main() {
  Env e; auto f = TransportFactory::CreateTransportFactory("shmem", "x", &e.c);
  std::atomic<int> acks{0};
  auto r = f->CreateUnmanagedRegion(100000, [&](const std::vector<RegionBlock>& b) { acks += b.size(); });
  const int n = 1000;
  {
    std::vector<MessagePtr> v;
    for (int i = 0; i < n; ++i) { v.push_back(f->CreateMessage(r, static_cast<char*>(r->GetData()) + i * 100, 100, nullptr)); }
  }
  for (int i = 0; i < 40 && acks < n; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(100));
  std::cout << acks << std::endl;
  REQUIRE(acks == n);
  return 0;
}
''', 'at least as many released blocks waiting as fit into one acknowledgement', 'one block of each full bunch is never acknowledged'),
 S('zmq-rebuild-alignment', 'C17', [('fairmq/zeromq/Message.h', '''    void Rebuild(size_t size, Alignment alignment) override
    {
        CloseMessage();
        fAlignment = alignment.alignment;''', '''    void Rebuild(size_t size, Alignment alignment) override
    {
        CloseMessage();
        fAlignment = std::max(fAlignment, alignment.alignment > 64 ? size_t(64) : alignment.alignment);''')], r'''
int main() {
  auto f = TransportFactory::CreateTransportFactory("zeromq", "x");
  for (int i = 0; i < 50; ++i) {
    auto m = f->CreateMessage(10 + i * 13, Alignment{64});
    m->Rebuild(1000 + i * 17, Alignment{8192});
    REQUIRE(reinterpret_cast<uintptr_t>(m->GetData()) % 8192 == 0);
  }
  return 0;
}
''', 'a zeromq message rebuilt with an alignment above 64', 'the data of the rebuilt message is not aligned as requested'),
 S('shm-recv-hwm', 'C35', [(SOCK, '''    int GetRcvBufSize() const override
    {
        int value = 0;
        size_t valueSize = sizeof(value);
        if (zmq_getsockopt(fSocket, ZMQ_RCVHWM,''', '''    int GetRcvBufSize() const override
    {
        int value = 0;
        size_t valueSize = sizeof(value);
        if (zmq_getsockopt(fSocket, ZMQ_SNDHWM,''')], r'''
int main() {
  Env e; auto f = TransportFactory::CreateTransportFactory("shmem", "x", &e.c);
  auto s = f->CreateSocket("pair", "s");
  s->SetSndBufSize(11); s->SetRcvBufSize(22);
  REQUIRE(s->GetSndBufSize() == 11);
  REQUIRE(s->GetRcvBufSize() == 22);
  return 0;
}
''', 'different buffer sizes for the two directions, read back over shared memory', 'the getter returns the option of the other direction'),
 S('rate-countdown-capped', 'C31', [('fairmq/tools/RateLimit.h', '''            count = skip_check_count;
            if''', '''            count = skip_check_count > 64 ? skip_check_count - skip_check_count / 4 : skip_check_count;
            if''')], r'''
#include <fairmq/tools/RateLimit.h>
int main() {
  tools::RateLimiter rl(100000);
  auto work = [] { auto t = std::chrono::steady_clock::now() + std::chrono::microseconds(1); while (std::chrono::steady_clock::now() < t) {} };
  for (int i = 0; i < 100000; ++i) { work(); rl.maybe_sleep(); }
  auto t0 = std::chrono::steady_clock::now();
  for (int i = 0; i < 200000; ++i) { work(); rl.maybe_sleep(); }
  double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::cout << s << std::endl;
  REQUIRE(s < 2.3 && s > 1.7);
  return 0;
}
''', 'a rate high enough for the limiter to check only every 64 calls or less often', 'the measured time per iteration is of other calls than counted: the rate kept is too low'),
]
for s in SEEDS:
    s.setdefault('timeout', 60)
