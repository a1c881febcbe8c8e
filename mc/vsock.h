// Simulated AF_UNIX stream sockets (see vsock.cpp).
#pragma once
#include <cstddef>
namespace vs {
int open_fds();              // descriptors open now
void set_first_fd(int fd);   // numbers are given out from here
void set_capacity(size_t n); // bytes a connection buffers
bool listening(const char *name);
int connects();              // calls to connect so far
// calls of this thread are never made to fail (the harness's own peers)
struct Clean { Clean(); ~Clean(); };
// calls of this kind may fail from now on: r(ead) w(rite) a(ccept) s(elect) c(onnect) k(socket) b(ind, listen, setsockopt)
void set_faults(const char *kinds);
}
