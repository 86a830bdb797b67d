// Both transports, header only, for the analyser (a small unit: no device, no plugin code).
#include <fairmq/shmem/TransportFactory.h>
#include <fairmq/zeromq/TransportFactory.h>
