ns = {}
exec(open('/verif/gen/seeds/more.py').read(), ns)
S, DEV = ns['S'], ns['DEV']
HARNESS = r'''
#include <fairmq/Device.h>
#include <fairmq/devices/BenchmarkSampler.h>
#include <fairmq/devices/Merger.h>
#include <fairmq/devices/Multiplier.h>
#include <fairmq/devices/Proxy.h>
#include <fairmq/devices/Sink.h>
#include <fairmq/devices/Splitter.h>
#include <fstream>
template<class D> struct T : D {
  using Device::fConfig;
  template<typename V> void set(const std::string& k, V v) { fConfig->template SetProperty<V>(k, v); }
  std::map<std::string, int> nums;
  std::thread st;
  ProgOptions o; std::shared_ptr<TransportFactory> z = TransportFactory::CreateTransportFactory("zeromq", "z", &o);
  std::map<std::string, std::vector<Channel>> peers;
  void chan(const std::string& name, const std::string& type, const std::string& peer, int n) {
    for (int i = 0; i < n; ++i) {
      std::string a = "ipc://" + name + std::to_string(i);
      Channel c(type, "bind", a); c.UpdateTransport("zeromq"); this->AddChannel(name, std::move(c));
      peers[name].emplace_back("peer", peer, z);
    }
  }
  void to(Transition t, State s) { this->ChangeState(t); this->WaitForState(s); }
  void up() {
    st = std::thread([this] { try { this->RunStateMachine(); } catch (std::exception& e) { std::cout << e.what() << std::endl; } });
    to(Transition::InitDevice, State::InitializingDevice); to(Transition::CompleteInit, State::Initialized);
    to(Transition::Bind, State::Bound); to(Transition::Connect, State::DeviceReady); to(Transition::InitTask, State::Ready);
    for (auto& p : peers) { for (size_t i = 0; i < p.second.size(); ++i) { p.second[i].Connect("ipc://" + p.first + std::to_string(i)); } }
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
  }
  void down() {
    if (this->GetCurrentState() == State::Running) { this->ChangeState(Transition::Stop); }
    this->WaitForState(State::Ready);
    to(Transition::ResetTask, State::DeviceReady); to(Transition::ResetDevice, State::Idle); this->ChangeState(Transition::End); st.join();
  }
  bool send(const std::string& c, int i, const std::string& s) { auto m = peers[c][i].NewMessage(s.size()); std::memcpy(m->GetData(), s.data(), s.size()); return peers[c][i].Send(m, 2000) >= 0; }
  std::string recv(const std::string& c, int i, int tmo = 2000) { auto m = peers[c][i].NewMessage(); if (peers[c][i].Receive(m, tmo) < 0) { return "-"; } return std::string(static_cast<char*>(m->GetData()), m->GetSize()); }
};
'''
SEEDS = [
 S('dev-proxy-empty-message', 'C36', [('fairmq/devices/Proxy.h', '''                MessagePtr payload(fTransportFactory->CreateMessage());
                if (Receive(payload, fInChannelName) >= 0) {''', '''                MessagePtr payload(fTransportFactory->CreateMessage());
                if (Receive(payload, fInChannelName) > 0) {''')], HARNESS + r'''
int main() {
  fair::Logger::SetConsoleSeverity("nolog");
  T<Proxy> d; d.set<bool>("multipart", false); d.set<std::string>("in-channel", "in"); d.set<std::string>("out-channel", "out");
  d.chan("in", "pull", "push", 1); d.chan("out", "push", "pull", 1); d.up(); d.to(Transition::Run, State::Running);
  bool ok = d.send("in", 0, "a") && d.send("in", 0, "") && d.send("in", 0, "b");
  ok = ok && d.recv("out", 0) == "a" && d.recv("out", 0) == "" && d.recv("out", 0) == "b";
  d.down(); std::cout << ok << std::endl; return ok ? 0 : 1;
}
''', 'an empty message in single-message mode', 'the empty message is dropped and the proxy leaves the running state'),
 S('dev-merger-first-only', 'C36', [('fairmq/devices/Merger.h', '''                        if (Receive(payload, fInChannelName, i) >= 0) {
                            if (Send(payload, fOutChannelName) < 0) {
                                LOG(debug) << "Transfer interrupted";
                                break;
                            }
                        } else {
                            LOG(debug) << "Transfer interrupted";
                            break;
                        }
                    }
                }
            }
        } else {''', '''                        if (Receive(payload, fInChannelName, i) >= 0) {
                            if (Send(payload, fOutChannelName) < 0) {
                                LOG(debug) << "Transfer interrupted";
                            }
                        } else {
                            LOG(debug) << "Transfer interrupted";
                        }
                        break;
                    }
                }
            }
        } else {''')], HARNESS + r'''
int main() {
  fair::Logger::SetConsoleSeverity("nolog");
  T<Merger> d; d.set<bool>("multipart", true); d.set<std::string>("in-channel", "in"); d.set<std::string>("out-channel", "out");
  d.chan("in", "pull", "push", 2); d.chan("out", "push", "pull", 1); d.up();
  for (int i = 0; i < 100; ++i) { d.send("in", 0, "x"); }
  d.send("in", 1, "y");
  std::this_thread::sleep_for(std::chrono::milliseconds(300));
  d.to(Transition::Run, State::Running);
  int at = -1, n = 0;
  for (; n < 101; ++n) { auto s = d.recv("out", 0); if (s == "y") { at = n; } if (s == "-") { break; } }
  d.down(); std::cout << at << " " << n << std::endl; return n == 101 && at >= 0 && at < 50 ? 0 : 1;
}
''', 'multi-part mode, two input sub-channels, the first with a backlog', 'the second input is not served as long as the first has data'),
 S('dev-splitter-turn-kept', 'C36', [('fairmq/devices/Splitter.h', '''        fDirection = 0;

        if''', '''        if (fNumOutputs == 0) {
            fDirection = 0;
        }

        if''')], HARNESS + r'''
int main() {
  fair::Logger::SetConsoleSeverity("nolog");
  T<Splitter> d; d.set<bool>("multipart", false); d.set<std::string>("in-channel", "in"); d.set<std::string>("out-channel", "out");
  d.chan("in", "pull", "push", 1); d.chan("out", "push", "pull", 3); d.up(); d.to(Transition::Run, State::Running);
  d.send("in", 0, "a"); bool ok = d.recv("out", 0) == "a";
  d.to(Transition::Stop, State::Ready); d.to(Transition::ResetTask, State::DeviceReady); d.to(Transition::InitTask, State::Ready); d.to(Transition::Run, State::Running);
  for (int i = 0; i < 4; ++i) { d.send("in", 0, std::to_string(i)); ok = ok && d.recv("out", i % 3, 1000) == std::to_string(i); }
  d.down(); std::cout << ok << std::endl; return ok ? 0 : 1;
}
''', 'a second initialisation of the task after a number of messages that is no multiple of the outputs', 'the turn goes on where it was (past the end, if there are fewer outputs now)'),
 S('dev-multiplier-first-width', 'C36', [('fairmq/devices/Multiplier.h', '''            for (unsigned int j = 0; j < GetNumSubChannels(fOutChannelNames.at(i)); ++j) { // all subChannels in a channel
                Parts parts;''', '''            for (int j = 0; j < fNumOutputs; ++j) { // all subChannels in a channel
                Parts parts;''')], HARNESS + r'''
int main() {
  fair::Logger::SetConsoleSeverity("nolog");
  T<Multiplier> d; d.set<bool>("multipart", true); d.set<std::string>("in-channel", "in"); d.set<std::vector<std::string>>("out-channel", {"o1", "o2", "o3"});
  d.chan("in", "pull", "push", 1); d.chan("o1", "push", "pull", 1); d.chan("o2", "push", "pull", 2); d.chan("o3", "push", "pull", 2); d.up(); d.to(Transition::Run, State::Running);
  Parts p; p.AddPart(d.z->CreateMessage(3)); p.AddPart(d.z->CreateMessage(5)); d.peers["in"][0].Send(p, 2000);
  bool ok = true;
  for (auto& c : d.peers) { if (c.first != "in") { for (auto& s : c.second) { Parts q; ok = s.Receive(q, 2000) == 8 && q.Size() == 2 && ok; Parts r; ok = s.Receive(r, 100) < 0 && ok; } } }
  d.down(); std::cout << ok << std::endl; return ok ? 0 : 1;
}
''', 'several output channels with different numbers of sub-channels, multi-part mode', 'the further sub-channels of the later channels get nothing'),
 S('dev-sink-empty-first-part', 'C36', [('fairmq/devices/Sink.h', '''                if (dataInChannel.Receive(parts) < 0) {
                    continue;
                }
                if (fOutputFile.is_open()) {
                    for (const auto& part : parts) {
''', '''                if (dataInChannel.Receive(parts) < 0) {
                    continue;
                }
                if (fOutputFile.is_open()) {
                    for (const auto& part : parts) {
                        if (part->GetSize() == 0) {
                            break;
                        }
''')], HARNESS + r'''
int main() {
  fair::Logger::SetConsoleSeverity("nolog");
  T<Sink> d; d.set<bool>("multipart", true); d.set<std::string>("in-channel", "in"); d.set<std::string>("out-filename", "out.bin"); d.set<uint64_t>("max-iterations", 0); d.set<uint64_t>("max-file-size", 0);
  d.chan("in", "pull", "push", 1); d.up(); d.to(Transition::Run, State::Running);
  auto mk = [&](const std::string& s) { auto m = d.z->CreateMessage(s.size()); std::memcpy(m->GetData(), s.data(), s.size()); return m; };
  Parts p; p.AddPart(mk("abc")); p.AddPart(mk("")); p.AddPart(mk("defg")); d.peers["in"][0].Send(p, 2000);
  Parts q; q.AddPart(mk("")); q.AddPart(mk("hi")); d.peers["in"][0].Send(q, 2000);
  std::this_thread::sleep_for(std::chrono::milliseconds(700));
  d.down();
  std::ifstream f("out.bin", std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  std::cout << s << std::endl; return s == "abcdefghi" ? 0 : 1;
}
''', 'a multi-part message with an empty part before others', 'the parts behind the empty one are not written'),
]
for s in SEEDS:
    s['srcs'] = DEV
