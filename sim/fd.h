// descriptor layer shared by the network and the file system
#pragma once
#include <sys/types.h>
#include "rt.h"
namespace sim {
struct Pending { Sock* s; };
struct Seg {
  enum T { DATA, FIN, RST } t;
  std::string data;
  u64 seq = 0;
};
struct Sock : std::enable_shared_from_this<Sock> {
  int id = 0;
  Node* node = nullptr;
  enum K { FRESH, LISTEN, CONNECTING, CONN, DEADS } k = FRESH;
  int port = 0;        // local port
  bool bound = false, reuse = false, reusePort = false, nonblock = false;
  u64 rcvTo = 0, sndTo = 0;
  int refs = 0;        // descriptors + operations in progress
  bool released = false;
  // connection
  std::shared_ptr<Sock> peer;
  std::string rbuf;
  size_t rpos = 0;
  u64 inflight = 0;    // bytes on their way to me
  u64 lastArr = 0;     // arrival time of the last segment to me
  bool finRcvd = false, shutW = false, shutR = false, rst = false;
  int err = 0;         // pending SO_ERROR
  bool serverSide = false, connTold = false;
  u64 txSeq = 0, rxSeq = 0;
  std::map<u64, Seg> ooo;
  std::deque<Seg> held;  // segments to me held by a partition
  // listener
  std::deque<std::shared_ptr<Sock>> backlog;
  int backlogMax = 0;
  bool lisShut = false;
  size_t avail() const { return rbuf.size() - rpos; }
};
struct OpRef {
  std::shared_ptr<Sock> s;
  explicit OpRef(std::shared_ptr<Sock> x) : s(std::move(x)) { if (s) s->refs++; }
  ~OpRef();
  OpRef(const OpRef&) = delete;
};
int sockClose(Node* n, int fd, FdEnt& e);  // entry already removed
ssize_t sockRecv(std::shared_ptr<Sock> s, void* b, size_t n, int flags);
ssize_t sockSend(std::shared_ptr<Sock> s, const void* b, size_t n, int flags);
int fileClose(Node* n, FdEnt& e);
ssize_t fileRead(std::shared_ptr<OpenFile> f, void* b, size_t n);
ssize_t fileWrite(std::shared_ptr<OpenFile> f, const void* b, size_t n);
inline bool simCall() { return rtActive && cur && rtDepth == 0; }
}
