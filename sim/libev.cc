// Failures of libevent calls that run out of memory. The calls themselves go to the real libevent.
#include "internal.h"
#include <errno.h>
struct event_base; struct bufferevent; struct evbuffer;
extern "C" {
struct bufferevent *bufferevent_socket_new(struct event_base *, int, int);
int bufferevent_write(struct bufferevent *, const void *, size_t);
int bufferevent_getfd(struct bufferevent *);

static void mark(int fd, bool w = false) { Proc *p = cur_proc(); auto it = p->fds.find(fd); if (it != p->fds.end() && it->second->end) { it->second->end->injected = true; it->second->end->write_oom |= w; } }
struct bufferevent *simev_bufferevent_socket_new(struct event_base *b, int fd, int opt) {
  if (fault(C.p_libev_new, "bufferevent_socket_new out of memory")) { mark(fd); errno = ENOMEM; return nullptr; }
  return bufferevent_socket_new(b, fd, opt);
}
int simev_bufferevent_write(struct bufferevent *b, const void *d, size_t n) {
  heap_check(d, n, false, "bufferevent_write");
  if (fault(C.p_libev_write, "bufferevent_write out of memory")) { mark(bufferevent_getfd(b), true); errno = ENOMEM; return -1; }
  return bufferevent_write(b, d, n);
}
}
