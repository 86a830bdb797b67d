// The bundled devices and the main() template, for the analyser.
#include <fairmq/devices/BenchmarkSampler.h>
#include <fairmq/devices/Merger.h>
#include <fairmq/devices/Multiplier.h>
#include <fairmq/devices/Proxy.h>
#include <fairmq/devices/Sink.h>
#include <fairmq/devices/Splitter.h>
#include <fairmq/runDevice.h>
