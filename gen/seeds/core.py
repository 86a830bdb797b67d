SM = ['fairmq/StateMachine.cxx', 'fairmq/States.cxx']
SEEDS = [
 dict(id='sm-verdict-after-pending', prop='C02', srcs=SM,
  edits=[('fairmq/StateMachine.cxx', 'if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {',
          'if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound || transition == Transition::Stop) {')],
  demo=r'''
#include <fairmq/StateMachine.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <iostream>
using namespace fair::mq;
int main() {
  StateMachine s; s.Start();
  std::mutex m; std::condition_variable cv; bool inReady = false, go = false;
  s.HandleStates([&](const State st) { if (st == State::Ready) { std::unique_lock<std::mutex> l(m); inReady = true; cv.notify_all(); cv.wait(l, [&] { return go; }); } });
  std::thread t([&] { try { s.ProcessWork(); } catch (std::exception&) {} });
  auto drive = [&](Transition tr) { while (!s.ChangeState(tr)) { std::this_thread::yield(); } };
  drive(Transition::InitDevice); drive(Transition::CompleteInit); drive(Transition::Bind); drive(Transition::Auto); drive(Transition::Connect); drive(Transition::Auto); drive(Transition::InitTask); drive(Transition::Auto);
  { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return inReady; }); }
  // device thread is busy in the READY handler: a pending transition stays pending
  bool a = s.ChangeState(Transition::Run);
  bool b = s.ChangeState(Transition::Stop);
  { std::lock_guard<std::mutex> l(m); go = true; } cv.notify_all();
  while (s.NewStatePending()) { std::this_thread::yield(); }
  s.ChangeState(Transition::ErrorFound); t.join();
  std::cout << a << b << std::endl;
  return (a && !b) ? 0 : 1;
}
''', needs='a Stop request while an accepted Run has not yet been taken over by the device thread', breaks='a second transition is accepted while one is pending: the RUNNING state is skipped'),
 dict(id='sm-pending-before-publish', prop='C02', srcs=SM,
  edits=[('fairmq/StateMachine.cxx', '''                fState = static_cast<State>(fNewState);
                fNewStatePending = false;
''', '''                fNewStatePending = false;
'''), ('fairmq/StateMachine.cxx', '''            CallStatePrep(fState);
            CallStateChangeCallbacks(fState);''', '''            fState = static_cast<State>(fNewState);
            CallStatePrep(fState);
            CallStateChangeCallbacks(fState);'''),
   ('fairmq/StateMachine.cxx', 'if (fState == State::Exiting || fState == State::Error) {', 'if (fNewState == State::Exiting || fNewState == State::Error) {')],
  demo=r'''
#include <fairmq/StateMachine.h>
#include <thread>
#include <atomic>
#include <iostream>
using namespace fair::mq;
int main() {
  // a requester hammers the machine; every accepted transition must be entered once
  std::atomic<bool> lost(false);
  for (int r = 0; r < 400 && !lost; ++r) {
    StateMachine s; s.Start();
    std::atomic<int> entered(0);
    s.SubscribeToStateChange("x", [&](const State) { ++entered; });
    std::thread t([&] { try { s.ProcessWork(); } catch (std::exception&) {} });
    int accepted = 0;
    const Transition seq[] = {Transition::InitDevice, Transition::CompleteInit, Transition::Bind, Transition::Auto, Transition::Connect, Transition::Auto, Transition::InitTask, Transition::Auto, Transition::ResetTask, Transition::Auto, Transition::ResetDevice, Transition::Auto, Transition::InitDevice, Transition::CompleteInit, Transition::ResetDevice, Transition::Auto};
    State order[] = {State::InitializingDevice, State::Initialized, State::Binding, State::Bound, State::Connecting, State::DeviceReady, State::InitializingTask, State::Ready, State::ResettingTask, State::DeviceReady, State::ResettingDevice, State::Idle, State::InitializingDevice, State::Initialized, State::ResettingDevice, State::Idle};
    int i = 0;
    for (auto tr : seq) {
      while (!s.ChangeState(tr)) {}
      ++accepted;
      // wait until it was taken over: from then on the current state is the new one
      while (s.NewStatePending()) {}
      if (s.GetCurrentState() != order[i]) { lost = true; }
      ++i;
    }
    while (!s.ChangeState(Transition::End)) {}
    t.join();
  }
  std::cout << (lost ? "stale state" : "ok") << std::endl;
  return lost ? 1 : 0;
}
''', needs='a reader looking at the current state between take-over of the transition and its publication', breaks='the adopted state is published outside the critical section, after the pending flag was cleared'),
 dict(id='sm-handler-skipped-on-error', prop='C03', srcs=SM,
  edits=[('fairmq/StateMachine.cxx', '            CallStateHandler(fState);\n        }', '            if (!fNewStatePending) {\n                CallStateHandler(fState);\n            }\n        }')],
  demo=r'''
#include <fairmq/StateMachine.h>
#include <thread>
#include <atomic>
#include <iostream>
using namespace fair::mq;
int main() {
  StateMachine s; s.Start();
  std::atomic<int> handled(0);
  // subscriber requests the next transition from its callback
  s.SubscribeToStateChange("x", [&](const State st) { if (st == State::InitializingDevice) { s.ChangeState(Transition::CompleteInit); } });
  s.HandleStates([&](const State st) { if (st == State::InitializingDevice) { ++handled; } });
  std::thread t([&] { try { s.ProcessWork(); } catch (std::exception&) {} });
  s.ChangeState(Transition::InitDevice);
  while (s.GetCurrentState() != State::Initialized) { std::this_thread::yield(); }
  while (!s.ChangeState(Transition::ResetDevice)) {}
  while (!s.ChangeState(Transition::Auto)) {}
  while (!s.ChangeState(Transition::End)) {}
  t.join();
  std::cout << handled << std::endl;
  return handled == 1 ? 0 : 1;
}
''', needs='a transition requested from inside a state-change callback', breaks='the handler of a state is skipped when the next transition is already pending'),
 dict(id='sm-unsubscribe-order', prop='C05', srcs=SM,
  edits=[('fairmq/StateMachine.cxx', '''    if (fsm->fNewTransitionSignalsMap.count(key)) {
        fsm->fNewTransitionSignalsMap.at(key).disconnect();
        fsm->fNewTransitionSignalsMap.erase(key);
    }''', '''    if (fsm->fNewTransitionSignalsMap.count(key) && fsm->fNewTransitionSignalsMap.erase(key) > 1) {
        fsm->fNewTransitionSignalsMap.at(key).disconnect();
    }''')],
  demo=r'''
#include <fairmq/StateMachine.h>
#include <iostream>
using namespace fair::mq;
int main() {
  StateMachine s; s.Start();
  int a = 0, b = 0;
  s.SubscribeToNewTransition("a", [&](const Transition) { ++a; });
  s.SubscribeToNewTransition("b", [&](const Transition) { ++b; });
  s.UnsubscribeFromNewTransition("a");
  s.ChangeState(Transition::InitDevice);
  std::cout << a << b << std::endl;
  return (a == 0 && b == 1) ? 0 : 1;
}
''', needs='unsubscribing from new transitions, then a transition', breaks='the callback stays connected after unsubscribing'),
 dict(id='sq-clear-error-timed', prop='C06',
  edits=[('fairmq/StateQueue.h', '''        auto const pred = Predicate();
        return {pred, pred ? PopFrontUnsafe() : fair::mq::State::Ok};''', '''        auto const pred = Predicate();
        if (pred && fStates.front() == fair::mq::State::Error && fStates.size() > 1) {
            fStates.pop();
        }
        return {pred, pred ? PopFrontUnsafe() : fair::mq::State::Ok};''')],
  demo=r'''
#include <fairmq/StateQueue.h>
#include <iostream>
using namespace fair::mq;
int main() {
  StateQueue q;
  q.Push(State::Error); q.Push(State::Idle);
  int errs = 0;
  for (int i = 0; i < 2; ++i) { try { q.WaitForNext(std::chrono::milliseconds(5)); } catch (DeviceErrorState&) { ++errs; } }
  std::cout << errs << std::endl;
  return errs == 2 ? 0 : 1;
}
''', needs='a state pushed after the error state, read through the timed wait', breaks='the error state is consumed and later waits do not report it'),
 dict(id='em-connections-key', prop='C07', srcs=['fairmq/EventManager.cxx'],
  edits=[('fairmq/EventManager.h', '''        const auto connectionsKey = std::make_pair(subscriber, signalsKey);

        std::lock_guard<std::mutex> lock{fMutex};

        fConnections.at(connectionsKey).disconnect();
        fConnections.erase(connectionsKey);''', '''        const auto connectionsKey = std::make_pair(subscriber, signalsKey);

        std::lock_guard<std::mutex> lock{fMutex};

        auto it = fConnections.find(connectionsKey);
        if (it == fConnections.end()) {
            throw std::out_of_range("no such subscriber");
        }
        auto connection = std::move(it->second);
        fConnections.erase(it);
        if (fConnections.empty()) {
            connection.disconnect();
        }''')],
  demo=r'''
#include <fairmq/EventManager.h>
#include <iostream>
using namespace fair::mq;
struct E : Event<std::string> {};
int main() {
  EventManager m; int a = 0, b = 0;
  m.Subscribe<E, int>("a", std::function<void(std::string, int)>([&](std::string, int) { ++a; }));
  m.Subscribe<E, int>("b", std::function<void(std::string, int)>([&](std::string, int) { ++b; }));
  m.Unsubscribe<E, int>("a");
  m.Emit<E, int>("k", 1);
  std::cout << a << b << std::endl;
  return (a == 0 && b == 1) ? 0 : 1;
}
''', needs='two subscribers, one of which unsubscribes while the other stays', breaks='the unsubscribed callback stays connected'),
]
