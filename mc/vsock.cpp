// AF_UNIX stream sockets in one process: every call is a scheduling point, and
// may be interrupted, split or failed by the explorer within the fault budget.
#include "vsock.h"
#include "mc.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <string>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <vector>
#include <cstdarg>

namespace mcint {
bool active();
int block_until(bool (*pred)(void *), void *arg, uint64_t deadline, const char *what);
void sched(const char *what);
uint64_t deadline_in(uint64_t ns);
void acquire(const void *p);
void release(const void *p);
}
#define R(n) __real_##n
#define W(n) __wrap_##n
extern "C" {
ssize_t R(read)(int, void *, size_t);
ssize_t R(write)(int, const void *, size_t);
int R(close)(int);
int R(fcntl)(int, int, ...);
int R(unlink)(const char *);
int R(poll)(pollfd *, nfds_t, int);
int R(select)(int, fd_set *, fd_set *, fd_set *, timeval *);
}
namespace {
struct Sock {
  enum { New, Bound, Listening, Connected, Dead } st = New;
  std::string name;
  std::deque<Sock *> queue;  // of a listener: server ends not accepted yet
  size_t backlog = 0;
  Sock *peer = nullptr;
  std::string rx;
  bool peer_gone = false, reset = false, shut_rd = false, shut_wr = false, nonblock = false, orphan = false;
};
std::map<int, Sock *> *fds;
std::map<std::string, Sock *> *names;
int first_fd = 200;
int n_connects;
size_t capacity = 1 << 20;
std::string *kinds;
thread_local int clean;
void init() { if (!fds) { fds = new std::map<int, Sock *>; names = new std::map<std::string, Sock *>; } }
Sock *get(int fd) { if (!fds) return nullptr; auto i = fds->find(fd); return i == fds->end() ? nullptr : i->second; }
bool ours(int fd) { return fds && (get(fd) || (fd >= first_fd && fd < first_fd + 100)); }
int add(Sock *s) {
  int fd = first_fd;
  while (fds->count(fd)) ++fd;
  (*fds)[fd] = s;
  return fd;
}
int fail(int e) { errno = e; return -1; }
Sock *want(int fd, const char *call) {
  Sock *s = get(fd);
  if (!s) mc::violation("%s on descriptor %d, which is not open", call, fd);
  return s;
}
int fault(char kind, int n, const char *tag) {
  if (clean || !kinds || kinds->find(kind) == std::string::npos) return 0;
  return mc::fault(n, tag);
}
// what is no failure: an upper case kind leaves the errors out
int gentle(char kind, int n, const char *tag) {
  if (int f = fault(kind, n, tag)) return f;
  int f = n > 2 || kind == 'a' ? fault(kind - 32, kind == 'a' ? 2 : n - 1, tag) : 0;
  return f > 1 ? f + 1 : f;
}
bool readable(Sock *s) {
  if (s->st == Sock::Listening) return !s->queue.empty() || s->shut_rd;
  if (s->st == Sock::Connected) return !s->rx.empty() || s->peer_gone || s->reset || s->shut_rd;
  return true;
}
bool writable(Sock *s) { return s->st != Sock::Connected || s->peer_gone || s->shut_wr || s->peer->rx.size() < capacity; }
std::string name_of(const sockaddr *a, socklen_t n) {
  auto u = reinterpret_cast<const sockaddr_un *>(a);
  return n > offsetof(sockaddr_un, sun_path) ? std::string(u->sun_path, n - offsetof(sockaddr_un, sun_path)) : std::string();
}
void hang_up(Sock *s) {  // this end goes away
  if (s->peer) {
    s->peer->peer_gone = true;
    if (!s->rx.empty()) s->peer->reset = true;
    mcint::release(s->peer);
  }
}
}  // namespace
namespace vs {
int open_fds() { return fds ? fds->size() : 0; }
void set_first_fd(int f) { first_fd = f; init(); }
int connects() { return n_connects; }
void set_capacity(size_t n) { capacity = n; }
void set_faults(const char *k) { kinds = new std::string(k); }
bool listening(const char *n) {
  if (names) for (auto &[k, s] : *names) if (s->st == Sock::Listening && !strcmp(k.c_str() + 1, n)) return true;
  return false;
}
Clean::Clean() { ++clean; }
Clean::~Clean() { --clean; }
}  // namespace vs

static ssize_t do_read(int fd, void *p, size_t n, int flags) {
  Sock *s = want(fd, "read");
  if (flags & MSG_DONTWAIT) mcint::sched("recv");
  else mcint::block_until([](void *a) { auto s = (Sock *)a; return readable(s) || s->nonblock || s->orphan; }, s, 0, "read");
  if (get(fd) != s) return fail(EBADF);
  mcint::acquire(s);
  if (s->st != Sock::Connected) return fail(EINVAL);
  if (!readable(s)) return fail(EAGAIN);
  if (s->rx.empty()) {
    if (s->reset) { s->reset = false; return fail(ECONNRESET); }
    return 0;
  }
  size_t k = std::min(n, s->rx.size());
  // whole / interrupted / error / one byte / all but one byte
  switch (gentle('r', k > 2 ? 5 : k > 1 ? 4 : 3, "read")) {
    case 1: return fail(EINTR);
    case 2: return fail(ENOMEM);
    case 3: k = 1; break;
    case 4: k = k - 1; break;
  }
  memcpy(p, s->rx.data(), k);
  if (!(flags & MSG_PEEK)) s->rx.erase(0, k);
  if (s->peer) mcint::release(s->peer);
  return k;
}
static ssize_t do_write(int fd, const void *p, size_t n, int flags) {
  Sock *s = want(fd, "write");
  mcint::sched("write");
  if (get(fd) != s) return fail(EBADF);
  if (s->st != Sock::Connected) return fail(ENOTCONN);
  size_t limit = n;
  switch (n ? gentle('w', n > 2 ? 5 : n > 1 ? 4 : 3, "write") : 0) {
    case 1: return fail(EINTR);
    case 2: return fail(ENOBUFS);
    case 3: limit = 1; break;
    case 4: limit = n - 1; break;
  }
  size_t done = 0;
  do {
    if (s->peer_gone || s->shut_wr || s->peer->shut_rd) {
      if (done) return done;
      if (!(flags & MSG_NOSIGNAL)) {
        struct sigaction sa;
        sigaction(SIGPIPE, nullptr, &sa);
        if (sa.sa_handler == SIG_DFL && !clean) mc::violation("writing to a connection the peer closed: SIGPIPE ends the program");
      }
      return fail(s->reset ? ECONNRESET : EPIPE);
    }
    size_t room = capacity > s->peer->rx.size() ? capacity - s->peer->rx.size() : 0;
    size_t k = std::min(room, limit - done);
    s->peer->rx.append((const char *)p + done, k);
    mcint::release(s->peer);
    done += k;
    if (done < limit) {
      if (s->nonblock || (flags & MSG_DONTWAIT)) return done ? (ssize_t)done : fail(EAGAIN);
      mcint::block_until([](void *a) { return writable((Sock *)a); }, s, 0, "write (full)");
      if (get(fd) != s) return fail(EBADF);
    }
  } while (done < limit);
  return done;
}
extern "C" {
int W(socket)(int, int type, int) {
  init();
  mcint::sched("socket");
  if (fault('k', 2, "socket")) return fail(EMFILE);
  auto s = new Sock;
  s->nonblock = type & SOCK_NONBLOCK;
  return add(s);
}
int W(setsockopt)(int fd, int, int, const void *, socklen_t) { want(fd, "setsockopt"); return fault('b', 2, "setsockopt") ? fail(ENOMEM) : 0; }
int W(bind)(int fd, const sockaddr *a, socklen_t n) {
  Sock *s = want(fd, "bind");
  mcint::sched("bind");
  if (fault('b', 2, "bind")) return fail(ENOMEM);
  auto k = name_of(a, n);
  if (names->count(k)) return fail(EADDRINUSE);
  s->name = k;
  s->st = Sock::Bound;
  (*names)[k] = s;
  return 0;
}
int W(listen)(int fd, int n) {
  Sock *s = want(fd, "listen");
  mcint::sched("listen");
  if (fault('b', 2, "listen")) return fail(ENOMEM);
  if (s->st != Sock::Bound && s->st != Sock::Listening) return fail(EINVAL);
  s->st = Sock::Listening;
  s->backlog = n;
  return 0;
}
int W(connect)(int fd, const sockaddr *a, socklen_t n) {
  Sock *s = want(fd, "connect");
  mcint::sched("connect");
  ++n_connects;
  switch (fault('c', 3, "connect")) {
    case 1: return fail(EINTR);
    case 2: return fail(ENOMEM);
  }
  if (s->st == Sock::Connected) return fail(EISCONN);
  auto key = name_of(a, n);
  struct Q { std::string *k; } q{&key};
  auto ready = [](void *p) {
    auto i = names->find(*((Q *)p)->k);
    return i == names->end() || i->second->st != Sock::Listening || i->second->queue.size() <= i->second->backlog;
  };
  if (!ready(&q)) {
    if (s->nonblock) return fail(EAGAIN);
    mcint::block_until(ready, &q, 0, "connect (queue full)");
    if (get(fd) != s) return fail(EBADF);
  }
  auto i = names->find(key);
  if (i == names->end() || i->second->st != Sock::Listening) return fail(ECONNREFUSED);
  auto e = new Sock;
  e->st = s->st = Sock::Connected;
  e->peer = s;
  s->peer = e;
  i->second->queue.push_back(e);
  mcint::release(i->second);
  return 0;
}
static int do_accept(int fd, int flags) {
  Sock *s = want(fd, "accept");
  if (s->st != Sock::Listening) return fail(EINVAL);
  mcint::block_until([](void *a) { auto s = (Sock *)a; return !s->queue.empty() || s->shut_rd || s->nonblock || s->st != Sock::Listening; }, s, 0, "accept");
  if (get(fd) != s) return fail(EBADF);
  mcint::acquire(s);
  if (s->shut_rd) return fail(EINVAL);
  if (s->queue.empty()) return fail(EAGAIN);
  switch (gentle('a', 4, "accept")) {
    case 1: return fail(EINTR);
    case 2: hang_up(s->queue.front()); s->queue.pop_front(); return fail(ECONNABORTED);
    case 3: return fail(EMFILE);
  }
  auto e = s->queue.front();
  s->queue.pop_front();
  e->nonblock = flags & SOCK_NONBLOCK;
  return add(e);
}
int W(accept)(int fd, sockaddr *, socklen_t *) { return do_accept(fd, 0); }
int W(accept4)(int fd, sockaddr *, socklen_t *, int f) { return do_accept(fd, f); }
int W(select)(int n, fd_set *r, fd_set *w, fd_set *x, timeval *tv) {
  if (!fds || !mcint::active()) return R(select)(n, r, w, x, tv);
  struct Q { std::vector<std::pair<int, Sock *>> rd, wr; } q;
  for (int i = 0; i < n; ++i) {
    if (r && FD_ISSET(i, r)) q.rd.push_back({i, want(i, "select")});
    if (w && FD_ISSET(i, w)) q.wr.push_back({i, want(i, "select")});
  }
  auto pred = [](void *p) {
    auto q = (Q *)p;
    for (auto &[i, s] : q->rd) if (get(i) != s || readable(s)) return true;
    for (auto &[i, s] : q->wr) if (get(i) != s || writable(s)) return true;
    return false;
  };
  int f = fault('s', 2, "select");
  if (f) return fail(EINTR);
  mcint::block_until(pred, &q, tv ? mcint::deadline_in(tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull) : 0, "select");
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (x) FD_ZERO(x);
  int k = 0;
  for (auto &[i, s] : q.rd) {
    if (get(i) != s) return fail(EBADF);
    if (readable(s)) { FD_SET(i, r); ++k; mcint::acquire(s); }
  }
  for (auto &[i, s] : q.wr) {
    if (get(i) != s) return fail(EBADF);
    if (writable(s)) { FD_SET(i, w); ++k; }
  }
  return k;
}
int W(poll)(pollfd *p, nfds_t n, int ms) {
  bool mine = false;
  for (nfds_t i = 0; i < n; ++i) mine |= p[i].fd >= 0 && ours(p[i].fd);
  if (!mine || !mcint::active()) return R(poll)(p, n, ms);
  struct Q { pollfd *p; nfds_t n; } q{p, n};
  if (fault('s', 2, "poll")) return fail(EINTR);
  auto eval = [](void *a) {
    auto q = (Q *)a;
    int k = 0;
    for (nfds_t i = 0; i < q->n; ++i) {
      auto &e = q->p[i];
      e.revents = 0;
      if (e.fd < 0) continue;
      Sock *s = get(e.fd);
      if (!s) e.revents = POLLNVAL;
      else {
        if ((e.events & POLLIN) && readable(s)) e.revents |= POLLIN;
        if ((e.events & POLLOUT) && writable(s)) e.revents |= POLLOUT;
        if (s->st == Sock::Connected && s->peer_gone) e.revents |= POLLHUP;
      }
      k += e.revents != 0;
    }
    return k > 0;
  };
  if (ms != 0) mcint::block_until(eval, &q, ms > 0 ? mcint::deadline_in(ms * 1000000ull) : 0, "poll");
  else mcint::sched("poll");
  eval(&q);
  int k = 0;
  for (nfds_t i = 0; i < n; ++i) {
    k += p[i].revents != 0;
    if (p[i].fd >= 0 && get(p[i].fd)) mcint::acquire(get(p[i].fd));
  }
  return k;
}
ssize_t W(read)(int fd, void *p, size_t n) { return ours(fd) ? do_read(fd, p, n, 0) : R(read)(fd, p, n); }
ssize_t W(write)(int fd, const void *p, size_t n) { return ours(fd) ? do_write(fd, p, n, 0) : R(write)(fd, p, n); }
ssize_t W(recv)(int fd, void *p, size_t n, int f) { return do_read(fd, p, n, f); }
ssize_t W(send)(int fd, const void *p, size_t n, int f) { return do_write(fd, p, n, f); }
ssize_t W(sendmsg)(int fd, const msghdr *m, int f) {
  std::string all;
  for (size_t i = 0; i < m->msg_iovlen; ++i) all.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return do_write(fd, all.data(), all.size(), f);
}
ssize_t W(recvmsg)(int fd, msghdr *m, int f) {
  size_t n = 0;
  for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
  std::string b(n, 0);
  ssize_t k = do_read(fd, &b[0], n, f);
  for (size_t i = 0, at = 0; k > 0 && i < m->msg_iovlen && at < (size_t)k; ++i) {
    size_t c = std::min(m->msg_iov[i].iov_len, (size_t)k - at);
    memcpy(m->msg_iov[i].iov_base, b.data() + at, c);
    at += c;
  }
  return k;
}
int W(shutdown)(int fd, int how) {
  Sock *s = want(fd, "shutdown");
  mcint::sched("shutdown");
  if (how != SHUT_WR) s->shut_rd = true;
  if (how != SHUT_RD) { s->shut_wr = true; if (s->peer) s->peer->peer_gone = true; }
  return 0;
}
int W(close)(int fd) {
  if (!ours(fd)) return R(close)(fd);
  Sock *s = want(fd, "close");
  mcint::sched("close");
  if (get(fd) != s) mc::violation("descriptor %d closed twice", fd);
  fds->erase(fd);
  s->orphan = true;
  if (s->st == Sock::Bound || s->st == Sock::Listening) names->erase(s->name);
  if (s->st == Sock::Listening) { for (auto e : s->queue) hang_up(e), e->peer->reset = true; s->queue.clear(); }
  hang_up(s);
  s->st = Sock::Dead;
  return 0;
}
int W(fcntl)(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!ours(fd)) return R(fcntl)(fd, cmd, arg);
  Sock *s = want(fd, "fcntl");
  if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) s->nonblock = arg & O_NONBLOCK;
  return 0;
}
int W(unlink)(const char *p) { return R(unlink)(p); }
}
