p('C08', 'Property types: conversion, label and notification agree for every type',
  'For every supported property type there is exactly one text conversion and one change notification, both read the value as exactly that type, the type label names that type, and a change of such a property is announced once, with its key and value, as that type (C strings as strings). '
  'Small integers are printed as numbers and booleans as true or false. User-added types are registered for both conversion and notification.',
  [I], 'all property types and values', 'the tests sample a few types; a mismatch in one of 70 table rows only shows for that type, as a bad-cast exception or a notification that never arrives',
  ['fairmq/Properties.cxx', 'fairmq/Properties.h'], [('conversion and event tables', 'fairmq/Properties.cxx')],
  'table extraction from the type-checked AST + per-row data-flow of the row functions')
p('C09', 'Property store: consistent reads, all-or-nothing updates, every change announced',
  'All accesses to the property container are serialised. Setting or updating properties stores every given value under its key and then announces each change exactly once as its own type and once as text, while the store is not locked, so subscribers may use the store. '
  'Updating properties of which any does not exist changes and announces nothing and reports failure. Reads return the stored value of exactly that key, a missing key yields the given default or an error and is never inserted, and queries return exactly the matching properties.',
  [S, H, I], 'all interleavings and histories of set, update, delete, query and subscribe', 'needs concurrent writers and callbacks re-entering the store; tests cover single-threaded samples',
  ['fairmq/ProgOptions.h', 'fairmq/ProgOptions.cxx'], [('property container and mutex', 'fairmq/ProgOptions.h')],
  'lockset analysis, event-language inclusion, compile-fail witnesses')
p('C10', 'Channel settings: every source agrees, none is lost or mixed up',
  'Every channel setting (type, method, address, transport, buffer and kernel sizes, timeouts, linger, rate logging, port range, auto-bind) is read from and written to the key of that name, from properties, JSON and --channel-config alike; a given setting is stored as given under the channel and socket index it was given for, and a missing one yields the documented default. '
  'Settings survive copying and moving channels, each setter changes exactly its setting, and the socket is created with the configured type and settings; a socket option that cannot be set is reported.',
  [I, C], 'all combinations of channel settings from every source', 'there are 17 settings on 6 paths; a mixed-up or lost one only shows for that one setting on that one path',
  ['fairmq/Channel.cxx', 'fairmq/Channel.h', 'fairmq/JSONParser.cxx', 'fairmq/SuboptParser.cxx', 'fairmq/ProgOptions.cxx'], [('channel settings', 'fairmq/Channel.cxx'), ('channel parsers', 'fairmq/JSONParser.cxx')],
  'per-setting data-flow and key-agreement analysis across all sources and sinks')
p('C11', 'Channels are attached only when valid, to exactly their configured endpoints',
  'A channel is accepted only if its name has only allowed characters, its type is a known socket type, its sizes are not negative, and every comma-separated endpoint names a known protocol, a non-empty target (with a port for tcp) and a direction (modifier or method). '
  'Attaching a valid channel binds or connects each endpoint once as its modifier, or else the method, says; it succeeds only if every endpoint was attached, and an address chosen while binding is stored back in the channel and in the configuration. Auto-bind tries the configured port first, then a bounded number of ports of the configured range, only for tcp and only if enabled.',
  [I, F], 'all channel addresses, methods and modifiers, and every failing bind or connect', 'tests use one or two well-formed endpoints',
  ['fairmq/Channel.cxx', 'fairmq/Device.cxx', 'fairmq/zeromq/Common.h'], [('validation and auto-bind', 'fairmq/Channel.cxx'), ('attaching', 'fairmq/Device.cxx')],
  'event-language inclusion and dominance facts on path-sensitive control-flow graphs')
p('C12', 'Sending and creating messages through channels and devices forwards faithfully',
  'A transfer on a channel (single message, parts or vector) uses the socket exactly once with the given data and the given timeout, or else the default timeout of the channel for that direction, and returns the result of the socket. '
  'Before it, each message of another transport is replaced: when sending by a message of the channel\'s transport with the same data that frees the original once when it is done, when receiving or without data by an empty one; messages of the same transport are untouched. '
  'Creating messages through a channel, device or transport passes exactly the given arguments on; a simple message owns a copy of the data and frees it once.',
  [I, PG], 'all message kinds, sizes, transports and timeout arguments', 'mixed-transport topologies and most overloads have no test; a swapped argument or a lost release shows only in one overload',
  ['fairmq/Channel.h', 'fairmq/Device.h', 'fairmq/TransportFactory.h', 'fairmq/Socket.h'], [('transfer interface', 'fairmq/Channel.h'), ('device interface', 'fairmq/Device.h')],
  'argument-forwarding and ownership-language analysis of every instantiated overload')
