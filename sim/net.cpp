// simulated TCP/IP: Linux semantics of sockets, latency, fragmentation, partitions, resets, timeouts
#include "fd.h"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdarg.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
NetCfg net;
static std::vector<std::weak_ptr<Sock>>* allSocks;
static std::map<int, std::shared_ptr<Sock>>* listeners;  // bound, not yet released (listening or not)
static std::map<int, u64>* timeWait;
static std::set<std::pair<int, int>>* cut;
static int nextEph, sockSeq;
static int pollObj;

void netInit() {
  allSocks = new std::vector<std::weak_ptr<Sock>>;
  listeners = new std::map<int, std::shared_ptr<Sock>>;
  timeWait = new std::map<int, u64>;
  cut = new std::set<std::pair<int, int>>;
  nextEph = 40000;
  sockSeq = 0;
}
int allocFd(Node* n) {
  int fd = 3;
  while (n->fds.count(fd)) fd++;
  if (n->fds.size() >= net.maxFds) return -EMFILE;
  return fd;
}
static bool isCut(Node* a, Node* b) {
  if (a == b) return false;
  return cut->count({std::min(a->id, b->id), std::max(a->id, b->id)}) != 0;
}
static void wake(Sock* s) {
  wakeAll(s);
  wakeAll(&pollObj);
}
static void release(const std::shared_ptr<Sock>& s);
static void deliver(const std::shared_ptr<Sock>& to, Seg seg);

static u64 latency(Node* a, Node* b) {
  u64 d = net.baseLat;
  if (a == b) d = 10 * US;
  d += a->netDelay + b->netDelay;
  u32 v = choose(K_DELAY, 64, net.pDelay);
  if (v) {
    fault("net-delay");
    d += net.maxDelay * v / 63;
  }
  return d;
}
// schedule a segment towards `to` (ordered)
static void arrive(const std::shared_ptr<Sock>& to, const Seg& seg);
static void xmit(Node* from, const std::shared_ptr<Sock>& to, Seg seg, u64 extra = 0) {
  if (seg.t == Seg::DATA && net.pSplit && !extra) {
    // the rest of a segment is lost on the way and retransmitted later
    if (u32 v = choose(K_SPLIT, 4096, net.pSplit)) {
      fault("net-split");
      size_t cutAt = seg.data.size() > 1 ? 1 + v / 16 % (seg.data.size() - 1) : 0;
      u64 d = net.maxSplit * (1 + v % 16) / 16;
      if (cutAt) {
        Seg head{Seg::DATA, seg.data.substr(0, cutAt)};
        seg.data.erase(0, cutAt);
        xmit(from, to, std::move(head), 1);
      }
      return xmit(from, to, std::move(seg), d);
    }
  }
  if (seg.t == Seg::DATA) to->inflight += seg.data.size();
  seg.seq = to->txSeq++;
  if (isCut(from, to->node) || !to->held.empty()) {
    to->held.push_back(std::move(seg));
    return;
  }
  u64 t = now_ + latency(from, to->node) + extra;
  if (t <= to->lastArr) t = to->lastArr + 1;
  to->lastArr = t;
  auto sp = to;
  at(t, [sp, seg] {
    if (sp->peer && isCut(sp->node, sp->peer->node)) {
      sp->held.push_back(seg);  // lost on the way, retransmitted after the partition heals
      return;
    }
    arrive(sp, seg);
  });
}
// segments are handed over in the order they were sent (TCP)
static void arrive(const std::shared_ptr<Sock>& to, const Seg& seg) {
  to->ooo[seg.seq] = seg;
  while (!to->ooo.empty() && to->ooo.begin()->first == to->rxSeq) {
    Seg s = std::move(to->ooo.begin()->second);
    to->ooo.erase(to->ooo.begin());
    to->rxSeq++;
    deliver(to, std::move(s));
  }
}
static void deliver(const std::shared_ptr<Sock>& to, Seg seg) {
  if (seg.t == Seg::DATA) to->inflight -= seg.data.size();
  if (to->released) {
    // data for a closed socket is answered with a reset
    if (seg.t == Seg::DATA && to->peer && !to->rst) {
      to->rst = true;
      auto p = to->peer;
      xmit(to->node, p, Seg{Seg::RST, ""});
    }
    return;
  }
  if (to->rst) return;
  switch (seg.t) {
    case Seg::DATA:
      if (to->rpos > 65536) {
        to->rbuf.erase(0, to->rpos);
        to->rpos = 0;
      }
      if (!to->shutR) to->rbuf += seg.data;
      break;
    case Seg::FIN:
      to->finRcvd = true;
      break;
    case Seg::RST:
      to->rst = true;
      to->err = to->finRcvd && to->shutW ? EPIPE : ECONNRESET;
      to->finRcvd = true;
      break;
  }
  if (to->peer) wake(to->peer.get());  // window updates
  wake(to.get());
}
static void sendFin(const std::shared_ptr<Sock>& s) {
  if (s->shutW || s->rst || !s->peer) return;
  s->shutW = true;
  xmit(s->node, s->peer, Seg{Seg::FIN, ""});
}
static void release(const std::shared_ptr<Sock>& s) {
  if (s->released) return;
  s->released = true;
  if (s->k == Sock::LISTEN || s->bound) {
    auto it = listeners->find(s->port);
    if (it != listeners->end() && it->second == s) listeners->erase(it);
  }
  if (s->k == Sock::LISTEN) {
    for (auto& c : s->backlog) {
      c->released = true;
      if (c->peer) {
        c->rst = true;
        xmit(s->node, c->peer, Seg{Seg::RST, ""});
      }
    }
    s->backlog.clear();
  }
  if (s->k == Sock::CONN && s->peer) {
    if (s->avail() && !s->rst) {
      s->rst = true;
      probe("close-with-unread-data");
      xmit(s->node, s->peer, Seg{Seg::RST, ""});
    } else if (!s->rst) {
      if (s->serverSide && !s->finRcvd) (*timeWait)[s->port] = now_ + 60 * SEC;
      sendFin(s);
    }
  }
}
OpRef::~OpRef() {
  if (s && --s->refs == 0) release(s);
}
int sockClose(Node*, int, FdEnt& e) {
  auto s = std::move(e.sock);
  if (--s->refs == 0) release(s);
  return 0;
}
void netKill(Node* n) {
  std::vector<std::shared_ptr<Sock>> ss;
  for (auto& kv : n->fds)
    if (kv.second.sock) ss.push_back(kv.second.sock);
  n->fds.clear();
  for (auto& w : *allSocks)
    if (auto s = w.lock())
      if (s->node == n && !s->released) {
        s->refs = 0;
        release(s);
      }
}
void partition(Node* a, Node* b, bool on) {
  RtGuard g;
  auto key = std::make_pair(std::min(a->id, b->id), std::max(a->id, b->id));
  note("partition %d-%d %s", a->id, b->id, on ? "on" : "off");
  if (on) {
    cut->insert(key);
    return;
  }
  if (!cut->erase(key)) return;
  for (size_t i = 0; i < allSocks->size(); i++) {
    auto s = (*allSocks)[i].lock();
    if (!s || s->held.empty() || !s->peer) continue;
    if (isCut(s->node, s->peer->node)) continue;
    auto h = std::move(s->held);
    s->held.clear();
    for (auto& seg : h) {
      u64 t = std::max(now_ + net.baseLat, s->lastArr + 1);
      s->lastArr = t;
      auto sp = s;
      auto sg = std::move(seg);
      at(t, [sp, sg] {
        if (sp->peer && isCut(sp->node, sp->peer->node))
          sp->held.push_back(sg);
        else
          arrive(sp, sg);
      });
    }
  }
  wakeAll(cut);
}
void resetConnections(Node* n) {
  RtGuard g;
  note("reset connections of node %d", n->id);
  for (size_t i = 0; i < allSocks->size(); i++) {
    auto s = (*allSocks)[i].lock();
    if (!s || s->node != n || s->k != Sock::CONN || s->rst || !s->peer) continue;
    deliver(s, Seg{Seg::RST, ""});
    if (!s->peer->rst) deliver(s->peer, Seg{Seg::RST, ""});
  }
}
int openSockets(Node* n) {
  int c = 0;
  for (auto& kv : n->fds)
    if (kv.second.sock) c++;
  return c;
}
int openFds(Node* n) { return (int)n->fds.size(); }
bool portBusy(int port) { return listeners->count(port) != 0; }

static std::shared_ptr<Sock> mkSock(Node* n) {
  auto s = std::make_shared<Sock>();
  s->id = ++sockSeq;
  s->node = n;
  allSocks->push_back(s);
  return s;
}
static std::shared_ptr<Sock> get(int fd, bool needSock = true) {
  auto it = cur->node->fds.find(fd);
  if (it == cur->node->fds.end()) {
    probe("ebadf");
    note("EBADF fd %d", fd);
    errno = EBADF;
    return nullptr;
  }
  if (!it->second.sock) {
    if (needSock) errno = ENOTSOCK;
    return nullptr;
  }
  return it->second.sock;
}
static bool wouldEintr(const char*) {
  if (!net.pEintr) return false;
  if (!flip(K_EINTR, net.pEintr)) return false;
  fault("eintr");
  errno = EINTR;
  return true;
}
static int fail(int e) {
  errno = e;
  return -1;
}

ssize_t sockRecv(std::shared_ptr<Sock> s, void* b, size_t n, int flags) {
  if (s->k != Sock::CONN) return fail(ENOTCONN);
  OpRef op(s);
  schedPoint(500);
  RtGuard g;
  u64 dl = s->rcvTo ? now_ + s->rcvTo : ~0ull;
  size_t got = 0;
  bool entered = false;
  for (;;) {
    if (s->avail()) {
      size_t take = std::min(n - got, s->avail());
      if (!(flags & MSG_PEEK) && take > 1 && net.pShortRecv && !(flags & MSG_WAITALL)) {
        u32 v = choose(K_RECV, 256, net.pShortRecv);
        if (v) {
          size_t t2 = std::max<size_t>(1, v < 8 ? std::min<size_t>(v, take) : take * v / 256);
          if (t2 < take) {
            fault("short-recv");
            take = t2;
          }
        }
      }
      memcpy((char*)b + got, s->rbuf.data() + s->rpos, take);
      if (!(flags & MSG_PEEK)) s->rpos += take;
      if (s->peer) wake(s->peer.get());
      got += take;
      if (got == n || !(flags & MSG_WAITALL)) return got;
      continue;
    }
    if (n == 0) return 0;
    if (s->rst && s->err) {
      if (got) return got;
      int e = s->err;
      s->err = 0;
      return fail(e);
    }
    if (s->finRcvd || s->shutR) return got;
    if (s->nonblock || (flags & MSG_DONTWAIT)) return got ? (ssize_t)got : fail(EAGAIN);
    if (!entered && wouldEintr("recv")) return got ? (ssize_t)got : -1;
    entered = true;
    int r = block(s.get(), "recv", dl, s->rcvTo != 0);
    if (r == WK_TIMEOUT) {
      if (s->avail() || s->finRcvd) continue;
      return got ? (ssize_t)got : fail(EAGAIN);
    }
    if (r == WK_INTR) return got ? (ssize_t)got : fail(EINTR);
  }
}
static int sigpipe(int flags) {
  if (!(flags & MSG_NOSIGNAL) && !cur->node->ignSigpipe) violation("sigpipe", "SIGPIPE kills the process in thread %d (%s)", cur->id, cur->name.c_str());
  return fail(EPIPE);
}
ssize_t sockSend(std::shared_ptr<Sock> s, const void* b, size_t n, int flags) {
  OpRef op(s);
  schedPoint(500);
  RtGuard g;
  if (s->k != Sock::CONN) {
    if (s->k == Sock::FRESH || s->k == Sock::DEADS) return sigpipe(flags);
    return fail(ENOTCONN);
  }
  u64 dl = s->sndTo ? now_ + s->sndTo : ~0ull;
  size_t sent = 0;
  bool entered = false;
  for (;;) {
    if (s->rst) {
      if (sent) return sent;
      if (s->err) {
        int e = s->err;
        s->err = 0;
        if (e == EPIPE) return sigpipe(flags);
        return fail(e);
      }
      return sigpipe(flags);
    }
    if (s->shutW) {
      if (sent) return sent;
      return sigpipe(flags);
    }
    if (n == 0) return 0;
    u64 used = s->peer->inflight + s->peer->avail();
    u64 space = s->peer->released ? net.window : (net.window > used ? net.window - used : 0);
    if (space) {
      size_t take = std::min<u64>(n - sent, space);
      bool shortened = false;
      if (n - sent > 1 && net.pShortSend) {
        u32 v = choose(K_SEND, 256, net.pShortSend);
        if (v) {
          size_t t2 = std::max<size_t>(1, v < 8 ? std::min<size_t>(v, take) : take * v / 256);
          if (t2 < take) {
            fault("short-send");
            take = t2;
            shortened = true;
          }
        }
      }
      // one send may travel as several segments
      std::string d((const char*)b + sent, take);
      size_t mss = 16384;
      for (size_t o = 0; o < d.size(); o += mss) xmit(s->node, s->peer, Seg{Seg::DATA, d.substr(o, mss)});
      sent += take;
      if (sent == n || shortened) return sent;
      continue;
    }
    if (s->nonblock || (flags & MSG_DONTWAIT)) return sent ? (ssize_t)sent : fail(EAGAIN);
    if (!entered && wouldEintr("send")) return sent ? (ssize_t)sent : -1;
    entered = true;
    probe("send-window-full");
    int r = block(s.get(), "send", dl, s->sndTo != 0);
    if (r == WK_TIMEOUT) return sent ? (ssize_t)sent : fail(EAGAIN);
    if (r == WK_INTR) return sent ? (ssize_t)sent : fail(EINTR);
  }
}
static bool portTaken(int port, const Sock* me) {
  auto it = listeners->find(port);
  if (it != listeners->end()) {
    const Sock* o = it->second.get();
    if (!(me->reusePort && o->reusePort) && !(me->reuse && o->reuse && o->k != Sock::LISTEN)) return true;
  }
  if (!me->reuse) {
    auto tw = timeWait->find(port);
    if (tw != timeWait->end() && tw->second > now_) return true;
    for (auto& w : *allSocks)
      if (auto s = w.lock())
        if (s->k == Sock::CONN && s->port == port && !s->released) return true;
  }
  return false;
}
// bit0 readable bit1 writable bit2 error/hup
static int readiness(Sock* s) {
  int r = 0;
  if (s->k == Sock::LISTEN) return (!s->backlog.empty() || s->lisShut) ? 1 : 0;
  if (s->k == Sock::CONNECTING) return s->err ? 7 : 0;
  if (s->k != Sock::CONN) return s->err ? 7 : 6;
  if (s->avail() || s->finRcvd || s->rst || s->shutR) r |= 1;
  if (s->rst) r |= 6;
  else if (s->shutW) r |= 2;
  else {
    u64 used = s->peer->inflight + s->peer->avail();
    if (s->peer->released || used < net.window) r |= 2;
  }
  if (s->finRcvd && s->shutW) r |= 4;
  return r;
}
struct ConnTry { bool done = false; };
static void synArrive(std::shared_ptr<Sock> c, int port, Node* from, int tries);
static void connFail(std::shared_ptr<Sock> c, int err) {
  if (c->k != Sock::CONNECTING) return;
  c->err = err;
  wake(c.get());
}
static void synSend(std::shared_ptr<Sock> c, int port, int tries) {
  u64 lat = latency(c->node, c->node);
  at(now_ + lat, [c, port, tries] { synArrive(c, port, c->node, tries); });
}
static void synArrive(std::shared_ptr<Sock> c, int port, Node* from, int tries) {
  if (c->released || c->k != Sock::CONNECTING || c->err) return;
  auto it = listeners->find(port);
  auto retry = [&] {
    if (tries >= 6) {
      connFail(c, ETIMEDOUT);
      return;
    }
    at(now_ + (SEC << tries), [c, port, tries] { synArrive(c, port, c->node, tries + 1); });
  };
  if (it != listeners->end() && isCut(from, it->second->node)) return retry();
  if (it == listeners->end() || it->second->k != Sock::LISTEN || it->second->lisShut) {
    connFail(c, ECONNREFUSED);
    return;
  }
  auto l = it->second;
  if ((int)l->backlog.size() > l->backlogMax) {
    probe("backlog-full");
    return retry();
  }
  auto srv = mkSock(l->node);
  srv->k = Sock::CONN;
  srv->port = port;
  srv->serverSide = true;
  srv->rcvTo = l->rcvTo;  // socket options are inherited from the listener
  srv->sndTo = l->sndTo;
  srv->peer = c;
  c->peer = srv;
  c->k = Sock::CONN;
  l->backlog.push_back(srv);
  wake(l.get());
  wake(c.get());
}
static int doConnect(std::shared_ptr<Sock> s, int port) {
  OpRef op(s);
  schedPoint(500);
  RtGuard g;
  if (s->k == Sock::CONN) {
    // Linux: the call that finds an interrupted handshake finished succeeds
    if (!s->connTold) {
      s->connTold = true;
      return 0;
    }
    return fail(EISCONN);
  }
  if (s->k == Sock::LISTEN) return fail(EISCONN);
  if (s->k == Sock::FRESH || s->k == Sock::DEADS) {
    s->k = Sock::CONNECTING;
    s->err = 0;
    if (!s->bound) s->port = nextEph++;
    synSend(s, port, 0);
    if (s->nonblock) return fail(EINPROGRESS);
  } else if (s->nonblock) {
    if (s->err) {
      int e = s->err;
      s->err = 0;
      s->k = Sock::DEADS;
      return fail(e);
    }
    return fail(EALREADY);
  }
  u64 dl = s->sndTo ? now_ + s->sndTo : ~0ull;
  bool eintrDone = false;
  while (s->k == Sock::CONNECTING && !s->err) {
    if (!eintrDone && wouldEintr("connect")) return -1;  // the handshake goes on in the background
    eintrDone = true;
    int r = block(s.get(), "connect", dl, s->sndTo != 0);
    if (r == WK_TIMEOUT && s->k == Sock::CONNECTING && !s->err) return fail(EINPROGRESS);
    if (r == WK_INTR && s->k == Sock::CONNECTING) return fail(EINTR);
  }
  if (s->k == Sock::CONN) {
    s->connTold = true;
    return 0;
  }
  int e = s->err;
  s->err = 0;
  s->k = Sock::DEADS;
  return fail(e);
}
}  // namespace sim
using namespace sim;

extern "C" {
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_readv(int, const struct iovec*, int);

int __wrap_socket(int dom, int type, int) {
  if (!simCall()) return fail(ENOSYS);
  schedPoint(300);
  RtGuard g;
  (void)dom;
  if (net.pSockErr && flip(K_NETERR, net.pSockErr)) {
    fault("socket-emfile");
    return fail(EMFILE);
  }
  int fd = allocFd(cur->node);
  if (fd < 0) {
    fault("emfile");
    return fail(EMFILE);
  }
  auto s = mkSock(cur->node);
  s->refs = 1;
  s->nonblock = (type & SOCK_NONBLOCK) != 0;
  cur->node->fds[fd].sock = s;
  note("socket fd %d s%d", fd, s->id);
  return fd;
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t) {
  schedPoint(300);
  RtGuard g;
  auto s = get(fd);
  if (!s) return -1;
  int port = ntohs(((const sockaddr_in*)a)->sin_port);
  if (s->bound) return fail(EINVAL);
  if (port == 0) {
    port = nextEph++;
  } else if (portTaken(port, s.get())) {
    probe("eaddrinuse");
    return fail(EADDRINUSE);
  }
  if (net.pSockErr && flip(K_NETERR, net.pSockErr)) {
    fault("bind-fail");
    return fail(EADDRINUSE);
  }
  s->bound = true;
  s->port = port;
  (*listeners)[port] = s;
  return 0;
}
int __wrap_listen(int fd, int bl) {
  schedPoint(300);
  RtGuard g;
  auto s = get(fd);
  if (!s) return -1;
  if (s->k == Sock::CONN || s->k == Sock::CONNECTING) return fail(EINVAL);
  if (net.pSockErr && flip(K_NETERR, net.pSockErr)) {
    fault("listen-fail");
    return fail(EADDRINUSE);
  }
  if (!s->bound) {
    s->bound = true;
    s->port = nextEph++;
    (*listeners)[s->port] = s;
  }
  s->k = Sock::LISTEN;
  s->lisShut = false;
  s->backlogMax = bl < 1 ? 1 : bl;
  note("listen s%d port %d", s->id, s->port);
  return 0;
}
static void fillAddr(struct sockaddr* a, socklen_t* l, int port) {
  if (!a || !l) return;
  sockaddr_in in{};
  in.sin_family = AF_INET;
  in.sin_port = htons(port);
  in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  memcpy(a, &in, std::min<size_t>(*l, sizeof in));
  *l = sizeof in;
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) {
  schedPoint(300);
  RtGuard g;
  auto s = get(fd);
  if (!s) return -1;
  OpRef op(s);
  if (s->k != Sock::LISTEN) return fail(EINVAL);
  u64 dl = s->rcvTo ? now_ + s->rcvTo : ~0ull;
  bool e0 = false;
  while (s->backlog.empty()) {
    if (s->lisShut) return fail(EINVAL);
    if (s->nonblock) return fail(EAGAIN);
    if (!e0 && wouldEintr("accept")) return -1;
    e0 = true;
    int r = block(s.get(), "accept", dl, s->rcvTo != 0);
    if (r == WK_TIMEOUT && s->backlog.empty()) return fail(EAGAIN);
    if (r == WK_INTR) return fail(EINTR);
  }
  if (net.pAcceptErr) {
    u32 v = choose(K_NETERR, 4, net.pAcceptErr);
    if (v == 1) {
      fault("accept-econnaborted");
      auto c = s->backlog.front();
      s->backlog.pop_front();
      c->released = true;
      c->rst = true;
      if (c->peer) xmit(s->node, c->peer, Seg{Seg::RST, ""});
      return fail(ECONNABORTED);
    }
    if (v == 2) {
      fault("accept-emfile");
      return fail(EMFILE);
    }
    if (v == 3) {
      fault("eintr");
      return fail(EINTR);
    }
  }
  int nfd = allocFd(cur->node);
  if (nfd < 0) {
    fault("emfile");
    return fail(EMFILE);
  }
  auto c = s->backlog.front();
  s->backlog.pop_front();
  c->refs = 1;
  c->nonblock = (flags & SOCK_NONBLOCK) != 0;
  cur->node->fds[nfd].sock = c;
  fillAddr(a, l, c->peer ? c->peer->port : 0);
  note("accept fd %d s%d (peer node %d)", nfd, c->id, c->peer ? c->peer->node->id : -1);
  return nfd;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) { return __wrap_accept4(fd, a, l, 0); }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t) {
  auto s = get(fd);
  if (!s) return -1;
  int port = ntohs(((const sockaddr_in*)a)->sin_port);
  int r = doConnect(s, port);
  int e = errno;
  note("connect fd %d s%d -> %d (%s)", fd, s->id, r, r ? strerrorname_np(e) : "ok");
  errno = e;
  return r;
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) {
  auto s = get(fd);
  if (!s) return -1;
  checkAccess(b, n, true, "recv buffer");
  ssize_t r = sockRecv(s, b, n, fl);
  int e = errno;
  note("recv fd %d s%d %zu -> %zd%s%s", fd, s->id, n, r, r < 0 ? " " : "", r < 0 ? strerrorname_np(e) : "");
  errno = e;
  return r;
}
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*) { return __wrap_recv(fd, b, n, fl); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) {
  auto s = get(fd);
  if (!s) return -1;
  checkAccess(b, n, false, "send buffer");
  ssize_t r = sockSend(s, b, n, fl);
  int e = errno;
  note("send fd %d s%d %zu -> %zd%s%s", fd, s->id, n, r, r < 0 ? " " : "", r < 0 ? strerrorname_np(e) : "");
  errno = e;
  return r;
}
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr*, socklen_t) { return __wrap_send(fd, b, n, fl); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int fl) {
  auto s = get(fd);
  if (!s) return -1;
  std::string all;
  for (size_t i = 0; i < m->msg_iovlen; i++) all.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return sockSend(s, all.data(), all.size(), fl);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int fl) {
  auto s = get(fd);
  if (!s) return -1;
  size_t tot = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
  std::string b(tot, 0);
  ssize_t r = sockRecv(s, b.data(), tot, fl);
  if (r > 0) {
    size_t o = 0;
    for (size_t i = 0; i < m->msg_iovlen && o < (size_t)r; i++) {
      size_t k = std::min(m->msg_iov[i].iov_len, (size_t)r - o);
      memcpy(m->msg_iov[i].iov_base, b.data() + o, k);
      o += k;
    }
  }
  return r;
}
int __wrap_shutdown(int fd, int how) {
  schedPoint(300);
  RtGuard g;
  auto s = get(fd);
  if (!s) return -1;
  note("shutdown fd %d s%d how %d", fd, s->id, how);
  if (s->k == Sock::LISTEN) {
    if (how == SHUT_WR) return 0;
    s->lisShut = true;
    for (auto& c : s->backlog) {
      c->released = true;
      c->rst = true;
      if (c->peer) xmit(s->node, c->peer, Seg{Seg::RST, ""});
    }
    s->backlog.clear();
    wake(s.get());
    return 0;
  }
  if (s->k == Sock::CONNECTING) {
    connFail(s, ECONNABORTED);
    return 0;
  }
  if (s->k != Sock::CONN || s->rst) return fail(ENOTCONN);
  if (how == SHUT_RD || how == SHUT_RDWR) s->shutR = true;
  if (how == SHUT_WR || how == SHUT_RDWR) sendFin(s);
  wake(s.get());
  return 0;
}
int __wrap_setsockopt(int fd, int lvl, int opt, const void* v, socklen_t len) {
  schedPoint(100);
  RtGuard g;
  auto s = get(fd);
  if (!s) return -1;
  if (lvl == SOL_SOCKET) {
    if (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) {
      if (len < sizeof(struct timeval)) return fail(EINVAL);
      struct timeval tv;
      memcpy(&tv, v, sizeof tv);
      if (tv.tv_usec < 0 || tv.tv_usec >= 1000000) return fail(EDOM);
      u64 ns = tv.tv_sec < 0 ? 1 : (u64)tv.tv_sec * SEC + (u64)tv.tv_usec * US;
      (opt == SO_RCVTIMEO ? s->rcvTo : s->sndTo) = ns;
    } else if (opt == SO_REUSEADDR)
      s->reuse = *(const int*)v != 0;
    else if (opt == SO_REUSEPORT)
      s->reusePort = *(const int*)v != 0;
  }
  return 0;
}
int __wrap_getsockopt(int fd, int lvl, int opt, void* v, socklen_t* len) {
  RtGuard g;
  auto s = get(fd);
  if (!s) return -1;
  if (lvl == SOL_SOCKET && opt == SO_ERROR && v && *len >= 4) {
    *(int*)v = s->err;
    if (s->k == Sock::CONNECTING && s->err) s->k = Sock::DEADS;
    s->err = 0;
    *len = 4;
  } else if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && *len >= sizeof(struct timeval)) {
    u64 ns = opt == SO_RCVTIMEO ? s->rcvTo : s->sndTo;
    struct timeval tv {(time_t)(ns / SEC), (suseconds_t)(ns % SEC / US)};
    memcpy(v, &tv, sizeof tv);
  } else if (v && *len >= 4) {
    *(int*)v = opt == SO_REUSEADDR ? s->reuse : 0;
  }
  return 0;
}
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  RtGuard g;
  auto s = get(fd);
  if (!s) return -1;
  fillAddr(a, l, s->port);
  return 0;
}
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* l) {
  RtGuard g;
  auto s = get(fd);
  if (!s) return -1;
  if (s->k != Sock::CONN || s->rst) return fail(ENOTCONN);
  fillAddr(a, l, s->peer ? s->peer->port : 0);
  return 0;
}
int __wrap_poll(struct pollfd* p, nfds_t n, int tmo) {
  schedPoint(300);
  RtGuard g;
  u64 dl = tmo < 0 ? ~0ull : now_ + (u64)tmo * MS;
  bool e0 = false;
  std::vector<std::unique_ptr<OpRef>> refs;
  for (nfds_t i = 0; i < n; i++) {
    auto it = p[i].fd >= 0 ? cur->node->fds.find(p[i].fd) : cur->node->fds.end();
    if (it != cur->node->fds.end() && it->second.sock) refs.emplace_back(new OpRef(it->second.sock));
    else refs.emplace_back(nullptr);
  }
  for (;;) {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      if (!refs[i]) {
        if (cur->node->fds.count(p[i].fd)) p[i].revents = p[i].events & (POLLIN | POLLOUT);
        else p[i].revents = POLLNVAL;
      } else {
        int r = readiness(refs[i]->s.get());
        if (r & 1) p[i].revents |= p[i].events & (POLLIN | POLLRDNORM);
        if (r & 2) p[i].revents |= p[i].events & (POLLOUT | POLLWRNORM);
        if (refs[i]->s->finRcvd) p[i].revents |= p[i].events & POLLRDHUP;
        if (r & 4) p[i].revents |= POLLHUP;
        if (refs[i]->s->rst || refs[i]->s->err) p[i].revents |= POLLERR;
      }
      if (p[i].revents) c++;
    }
    if (c) return c;
    if (tmo == 0) return 0;
    if (!e0 && wouldEintr("poll")) return -1;
    e0 = true;
    int r = block(&pollObj, "poll", dl, true);
    if (r == WK_TIMEOUT) {
      if (now_ >= dl) tmo = 0;
      continue;
    }
    if (r == WK_INTR) return fail(EINTR);
  }
}
int __wrap_select(int nf, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
  std::vector<struct pollfd> p;
  for (int i = 0; i < nf; i++) {
    short e = 0;
    if (r && FD_ISSET(i, r)) e |= POLLIN;
    if (w && FD_ISSET(i, w)) e |= POLLOUT;
    if (x && FD_ISSET(i, x)) e |= POLLPRI;
    if (e) p.push_back({i, e, 0});
  }
  int rc = __wrap_poll(p.data(), p.size(), tv ? (int)(tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000) : -1);
  if (rc < 0) return rc;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (x) FD_ZERO(x);
  int c = 0;
  for (auto& e : p) {
    if (e.revents & POLLNVAL) return fail(EBADF);
    if (r && (e.events & POLLIN) && (e.revents & (POLLIN | POLLHUP | POLLERR))) FD_SET(e.fd, r), c++;
    if (w && (e.events & POLLOUT) && (e.revents & (POLLOUT | POLLERR))) FD_SET(e.fd, w), c++;
  }
  return c;
}
int __wrap_getaddrinfo(const char* host, const char* serv, const struct addrinfo* h, struct addrinfo** out) {
  schedPoint(50 * US);
  RtGuard g;
  if (host && (!strncmp(host, "unresolvable", 12) || !host[0])) return EAI_NONAME;
  auto* a = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(sockaddr_in));
  auto* in = (sockaddr_in*)(a + 1);
  in->sin_family = AF_INET;
  in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (serv) in->sin_port = htons(atoi(serv));
  a->ai_family = AF_INET;
  a->ai_socktype = h ? h->ai_socktype : SOCK_STREAM;
  a->ai_addrlen = sizeof(sockaddr_in);
  a->ai_addr = (struct sockaddr*)in;
  *out = a;
  return 0;
}
void __wrap_freeaddrinfo(struct addrinfo* a) { free(a); }

// ---- descriptors of either kind
int __wrap_close(int fd) {
  if (!simCall()) return __real_close(fd);
  schedPoint(300);
  RtGuard g;
  auto it = cur->node->fds.find(fd);
  if (it == cur->node->fds.end()) {
    probe("close-ebadf");
    note("close fd %d -> EBADF", fd);
    return fail(EBADF);
  }
  FdEnt e = std::move(it->second);
  note("close fd %d%s", fd, e.sock ? (" s" + std::to_string(e.sock->id)).c_str() : "");
  cur->node->fds.erase(it);
  int r = e.sock ? sockClose(cur->node, fd, e) : fileClose(cur->node, e);
  int er = errno;
  rtDepth--;
  schedPoint(100);
  rtDepth++;
  errno = er;
  return r;
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (!simCall()) return __real_read(fd, b, n);
  auto it = cur->node->fds.find(fd);
  if (it == cur->node->fds.end()) return fail(EBADF);
  if (it->second.sock) return sockRecv(it->second.sock, b, n, 0);
  return fileRead(it->second.file, b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (!simCall()) return __real_write(fd, b, n);
  auto it = cur->node->fds.find(fd);
  if (it == cur->node->fds.end()) {
    if (fd == 1 || fd == 2) return n;
    return fail(EBADF);
  }
  if (it->second.sock) return sockSend(it->second.sock, b, n, 0);
  return fileWrite(it->second.file, b, n);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
  if (!simCall()) return __real_writev(fd, v, c);
  std::string all;
  for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
  return __wrap_write(fd, all.data(), all.size());
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) {
  if (!simCall()) return __real_readv(fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    ssize_t r = __wrap_read(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : r;
    tot += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return tot;
}
}
