"""Source of properties.jsonl and MANIFEST.json:  python3 gen/props.py"""
import json, os, sys
sys.path.insert(0, '/verif')
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na))


S, I, H, F, C, CR, PG = 'schedules', 'inputs', 'histories', 'fault_sequences', 'configurations', 'crash_points', 'programs'

p('C01', 'Device state machine follows the documented transition table',
  'In every state exactly the documented transitions are accepted and each leads to its documented next state; every other request is refused and leaves the state unchanged. '
  'A transition request reports success if and only if the machine accepted it, whatever requests came before (including after the error state was reached), and requests by name and by value agree. '
  'The error transition is possible from every state and the error state is final.',
  [H, I], 'every history of transition requests from any state', 'tests drive a few canonical sequences; the table is 16 states x 12 transitions and the verdict depends on the whole history',
  ['fairmq/StateMachine.cxx', 'fairmq/StateMachine.h'], [('transition table', 'fairmq/StateMachine.cxx'), ('transition dispatch', 'fairmq/StateMachine.cxx')],
  'type-level table extraction (clang) + per-transition path analysis of the dispatcher and row actions')
p('C02', 'State changes are serialised: one pending transition, never lost',
  'While one accepted transition has not been taken over by the device thread, any further request except the error transition is refused. '
  'Test, acceptance and publication of a transition are atomic with respect to other requests and to the device thread, which adopts each accepted state exactly once. '
  'A thread waiting for a pending transition is always woken by it and never returns from an unbounded wait without one.',
  [S], 'all interleavings of threads requesting, waiting for and processing transitions', 'unit tests do not control the interleaving of requester, waiter and worker threads',
  ['fairmq/StateMachine.cxx'], [('pending flag, state mutex and condition variable', 'fairmq/StateMachine.cxx')],
  'lockset + path-sensitive typestate analysis of event graphs')
p('C03', 'Every state is prepared, announced, then handled; failures end in ERROR',
  'On entry to each state the device thread runs the preparation hook, then the state-change subscribers, then the state handler, each with the state just entered and with no internal lock held. '
  'Processing continues after every state except the exiting and the error state; it ends normally after the former and by reporting an error after the latter. '
  'An exception escaping any hook, subscriber or handler puts the device into the error state, announces it, and still propagates.',
  [H, F, S], 'every sequence of states and every callback that throws', 'needs exceptions at arbitrary points and callbacks that re-enter the state machine',
  ['fairmq/StateMachine.cxx', 'fairmq/tools/Exceptions.h'], [('device thread loop', 'fairmq/StateMachine.cxx')],
  'event-language inclusion on the exception-aware control-flow graph')
p('C04', 'Names and values of states, transitions, transports and errors correspond',
  'Every state, transition, transport and error code has exactly one, distinct, documented name; converting a value to its name and back (where both exist) yields the same value for every value and every name. '
  'Unknown names are rejected.',
  [I], 'all enumerators and all names', 'no test enumerates the tables; a swapped or missing entry only shows for that one value',
  ['fairmq/States.h', 'fairmq/States.cxx', 'fairmq/Transports.h', 'fairmq/Error.h'], [('name tables', 'fairmq/States.cxx')],
  'constant-table extraction and exhaustive comparison per enumerator')
p('C05', 'State subscriptions are keyed: one live callback per key, removable',
  'At any time at most one state-change (and one new-transition) callback is connected per key; subscribing again with the key replaces the previous callback. '
  'Unsubscribing a key disconnects exactly the callback of that key, keeps all others, and afterwards it is not called for new state changes; concurrent subscription and unsubscription are safe.',
  [H, S], 'all histories and interleavings of subscribe/unsubscribe with equal and different keys', 'no test re-subscribes a key or races subscriptions',
  ['fairmq/StateMachine.cxx'], [('subscription maps', 'fairmq/StateMachine.cxx')],
  'typestate over lookup/disconnect/erase/insert paths + lockset analysis')
p('C06', 'State queue delivers state changes in order, without loss or lost wake-ups',
  'States pushed to the queue are returned first-in first-out, each exactly once, to waiting readers, and every push wakes a waiting reader. '
  'Once the error state was pushed every pending and later wait ends by reporting the error. '
  'Timed waits return a state if and only if one was available before the deadline, and the combined state-or-condition waits re-evaluate the caller\'s condition every time they are woken.',
  [S, H], 'all interleavings of pushes, waits, timed waits, locks and clears', 'depends on interleaving of producer and consumer threads',
  ['fairmq/StateQueue.h'], [('state queue', 'fairmq/StateQueue.h')],
  'lockset, condition-variable discipline and container-operation rules on instantiated templates')
p('C07', 'Event manager: each subscriber gets each matching event exactly once',
  'Emitting an event calls exactly the current subscribers of that event type and argument signature, once each, with the emitted key and arguments, and no others. '
  'A subscriber that subscribes again replaces its earlier callback, and one that unsubscribes gets no later events; other subscribers are unaffected. '
  'Subscribing, unsubscribing and emitting are safe from any threads, including from inside a callback.',
  [S, H, I], 'all histories and interleavings of subscribe, unsubscribe and emit', 'the existing test covers one short single-threaded history',
  ['fairmq/EventManager.h', 'fairmq/EventManager.cxx'], [('signal and connection tables', 'fairmq/EventManager.h')],
  'lockset, key-agreement and typestate analysis of the instantiated templates')
json_path = '/verif/properties.jsonl'


def load_rest():
    import importlib
    for m in ('props2', 'props3', 'props4'):
        if os.path.exists('/verif/gen/%s.py' % m):
            exec(open('/verif/gen/%s.py' % m).read(), globals())


def main():
    load_rest()
    from engine import rules, core
    P.sort(key=lambda x: x['id'])
    with open(json_path, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                                    anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']]))) + '\n')
    checks, na = [], []
    for x in P:
        if x['id'] in core.PROPS and not x['na']:
            checks.append(dict(property=x['id'], quick_cmd='python3 check.py %s quick' % x['id'], thorough_cmd='python3 check.py %s thorough' % x['id'],
                               evidence_file='evidence/%s.json' % x['id'], technique='static analysis: ' + (x['tech'] or 'path-sensitive rules over the type-checked program'), level='other',
                               level_note=x['note'] or 'Decides the structural rules listed in DESIGN.md on every path of the current sources (clang AST, all instantiated templates). Assumes the documented semantics of the standard and Boost/ZeroMQ libraries; see trusted_base in the evidence.'))
        else:
            na.append(dict(property=x['id'], reason=x['na'] or 'no check built yet'))
    m = dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=na,
             notes='Static analysis only. All checks parse /repo\'s current sources on every run (content-addressed parse cache in .build/). No hooks in /repo are needed.')
    json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'claimed;', len(na), 'not applicable:', [x['property'] for x in na])


main()
