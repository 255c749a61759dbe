// The control protocol: the real Controller against a modelled network.  Every
// segmentation of the requests, partial sends, interrupted calls, clients that
// leave, stall or send rubbish, one after another; the pipeline is a recorder.
// The linker redirects the socket calls here (--wrap); descriptors are counted.
#include "common.hh"
#include "Controller.hh"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>

static std::vector<std::string> *executed; static int answer_no;
static char pm_space[sizeof(PipelineManager)];
PipelineManager *PipelineManager::getInstance(unsigned) { return (PipelineManager*)pm_space; }
static std::string show(const Jzon::Node &n) { if (n.IsValue()) return n.ToString(); Jzon::Writer w(n, Jzon::NoFormat); w.Write(); return w.GetResult(); }
// what the recorder answers, as the manager: an error member for each event, or a state document
static size_t filler;
void PipelineManager::processEvent(Jzon::Object e, Jzon::Object &o) {
    executed->push_back(show(e)); int k = ++answer_no;
    std::string a = e.Has("action") && e.Get("action").IsString() ? e.Get("action").ToString() : "";
    if (a == "ok") o.Add("error", Jzon::null); else if (a == "state") { Jzon::Array f; f.Add(k); o.Add("filters", f); o.Add("paths", std::string(filler, 'p')); } else o.Add("error", "failed " + std::to_string(k));
}

enum { WAITS, LEAVES, RESETS, STALLS_READ };          // what a client does after its bytes: waits for the answer, closes, resets, does not read
struct Client { std::vector<std::string> seg; size_t at, off; int then; std::string got; bool accepted, closed, gone; int fd; };
struct Fd { int kind; bool open; Client *c; long rcv, snd; bool nonblock; int closes; };   // kind 1: listening, 2: connection
struct Net { std::map<int, Fd> fd; std::deque<Client*> queue; int next, faults, idle, partials; bool bound, listening; int fail_socket; };
static Net *net; static const int BASE = 300;
static bool ours(int fd) { return net && fd >= BASE && fd < BASE + 200; }
static Fd &F(int fd, const char *call) { auto it = net->fd.find(fd); if (it == net->fd.end() || !it->second.open) mc::fail("descriptor", "%s on descriptor %d, which is not open", call, fd); return it->second; }
static bool fault() { if (net->faults > 0 && mc::choose(2)) { net->faults--; return true; } return false; }
static int err(int e) { errno = e; return -1; }
static void tick(const char *what) { if (++net->idle > 400) mc::fail("spin", "%s is called again and again", what); }
static bool readable(Fd &f) { if (f.kind == 1) return net->listening && !net->queue.empty(); Client *c = f.c; return c->at < c->seg.size() || c->then == LEAVES || c->then == RESETS; }
static bool writable(Fd &f) { return f.c && f.c->then != STALLS_READ; }

static ssize_t do_recv(int fd, void *buf, size_t n, int flags) {
    Fd &f = F(fd, "recv"); if (f.kind != 2) return err(ENOTCONN);
    tick("recv");
    if (n == 0) return 0;
    if (fault()) { mc::op("recv interrupted"); return err(EINTR); }
    Client *c = f.c;
    if (c->at < c->seg.size()) {
        std::string &s = c->seg[c->at]; size_t k = std::min(n, s.size() - c->off);
        memcpy(buf, s.data() + c->off, k); if (!(flags & MSG_PEEK)) { c->off += k; if (c->off == s.size()) { c->at++; c->off = 0; } }
        mc::op("recv gives %zu bytes", k); return k;
    }
    if (c->then == LEAVES) { mc::op("recv: closed by the client"); return 0; }
    if (c->then == RESETS) { mc::op("recv: reset"); return err(ECONNRESET); }
    if ((flags & MSG_DONTWAIT) || f.nonblock) return err(EAGAIN);
    if (!f.rcv) mc::fail("blocked", "the controller waits for a client that sends nothing more, without a limit");
    mc::vclock_ns += f.rcv; mc::op("recv times out"); return err(EAGAIN);
}
static ssize_t do_send(int fd, const void *buf, size_t n, int flags) {
    Fd &f = F(fd, "send"); if (f.kind != 2) return err(ENOTCONN);
    tick("send");
    if (n == 0) return 0;
    if (fault()) { mc::op("send interrupted"); return err(EINTR); }
    Client *c = f.c;
    if (c->then == RESETS || (c->then == LEAVES && c->gone)) {
        struct sigaction sa; sigaction(SIGPIPE, NULL, &sa);
        if (!(flags & MSG_NOSIGNAL) && sa.sa_handler == SIG_DFL) mc::fail("sigpipe", "sending to a client that has gone ends the process");
        mc::op("send: the client has gone"); return err(EPIPE);
    }
    if (c->then == STALLS_READ) { if ((flags & MSG_DONTWAIT) || f.nonblock) return err(EAGAIN); if (!f.snd) mc::fail("blocked", "the controller waits for a client that does not read, without a limit"); mc::vclock_ns += f.snd; mc::op("send times out"); return err(EAGAIN); }
    size_t k = n; static const int partial = mc::param("partial", 0);
    if (n > 1 && net->partials < partial) { net->partials++; int m = mc::choose(3); k = m == 0 ? n : m == 1 ? 1 : n / 2; }
    c->got.append((const char*)buf, k); if (c->then == LEAVES) c->gone = true;
    mc::op("send takes %zu of %zu bytes", k, n); return k;
}
extern "C" {
#define PASS(ret, name, args, call) ret __real_##name args; ret __wrap_##name args
PASS(ssize_t, recv, (int fd, void *b, size_t n, int fl), ) { return ours(fd) ? do_recv(fd, b, n, fl) : __real_recv(fd, b, n, fl); }
PASS(ssize_t, read, (int fd, void *b, size_t n), ) { return ours(fd) ? do_recv(fd, b, n, 0) : __real_read(fd, b, n); }
PASS(ssize_t, send, (int fd, const void *b, size_t n, int fl), ) { return ours(fd) ? do_send(fd, b, n, fl) : __real_send(fd, b, n, fl); }
PASS(ssize_t, write, (int fd, const void *b, size_t n), ) { return ours(fd) ? do_send(fd, b, n, 0) : __real_write(fd, b, n); }
PASS(int, close, (int fd), ) {
    if (!ours(fd)) { if (net && fd < 0) mc::fail("descriptor", "closing descriptor %d", fd); return __real_close(fd); }
    Fd &f = F(fd, "close"); f.open = false; mc::op("close %s", f.kind == 1 ? "listening socket" : "connection"); if (f.c) f.c->closed = true; return 0; }
PASS(int, shutdown, (int fd, int how), ) { if (!ours(fd)) return __real_shutdown(fd, how); F(fd, "shutdown"); return 0; }
PASS(int, socket, (int d, int t, int p), ) { if (!net) return __real_socket(d, t, p); if (net->fail_socket == 1) return err(EMFILE); int fd = net->next++; Fd f = {1, true, NULL, 0, 0, false, 0}; net->fd[fd] = f; return fd; }
PASS(int, setsockopt, (int fd, int l, int o, const void *v, socklen_t n), ) { if (!ours(fd)) return __real_setsockopt(fd, l, o, v, n); Fd &f = F(fd, "setsockopt");
    if (net->fail_socket == 2) return err(ENOBUFS);
    if (l == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO)) { const timeval *t = (const timeval*)v; long ns = t->tv_sec * 1000000000l + t->tv_usec * 1000; (o == SO_RCVTIMEO ? f.rcv : f.snd) = ns; } return 0; }
PASS(int, bind, (int fd, const struct sockaddr *a, socklen_t n), ) { if (!ours(fd)) return __real_bind(fd, a, n); F(fd, "bind"); if (net->fail_socket == 3) return err(EADDRINUSE); net->bound = true; return 0; }
PASS(int, listen, (int fd, int b), ) { if (!ours(fd)) return __real_listen(fd, b); F(fd, "listen"); if (!net->bound) mc::fail("listen", "listening on a socket that is not bound"); net->listening = true; return 0; }
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n); int __real_accept(int fd, struct sockaddr *a, socklen_t *n);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) {
    if (!ours(fd)) return __real_accept(fd, a, n);
    Fd &f = F(fd, "accept"); tick("accept"); if (!net->listening) return err(EINVAL);
    if (net->queue.empty()) { if (f.nonblock) return err(EAGAIN); mc::fail("blocked", "accept without a client"); }
    if (fault()) { if (mc::choose(2)) { mc::op("accept interrupted"); return err(EINTR); } mc::op("accept: the client has gone"); net->queue.pop_front(); return err(ECONNABORTED); }
    Client *c = net->queue.front(); net->queue.pop_front(); int k = net->next++; Fd x = {2, true, c, 0, 0, false, 0}; net->fd[k] = x; c->accepted = true; c->fd = k; net->idle = 0; mc::op("client accepted"); return k; }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl); int __real_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { int k = __wrap_accept(fd, a, n); if (k >= BASE && (fl & SOCK_NONBLOCK)) net->fd[k].nonblock = true; return k; }
int __real_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    if (!net || n <= BASE) return __real_select(n, r, w, e, t);
    tick("select"); if (fault()) { mc::op("select interrupted"); return err(EINTR); }
    int c = 0; for (int i = BASE; i < n; i++) { if (r && FD_ISSET(i, r)) { if (readable(F(i, "select"))) c++; else FD_CLR(i, r); } if (w && FD_ISSET(i, w)) { if (writable(F(i, "select"))) c++; else FD_CLR(i, w); } }
    if (e) FD_ZERO(e);
    if (!c) { if (!t) mc::fail("blocked", "select without a limit and nothing to come"); mc::vclock_ns += t->tv_sec * 1000000000l + t->tv_usec * 1000; t->tv_sec = t->tv_usec = 0; }
    return c; }
int __real_poll(struct pollfd *p, nfds_t n, int ms);
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) {
    if (!net || !n || !ours(p[0].fd)) return __real_poll(p, n, ms);
    tick("poll"); if (fault()) { mc::op("poll interrupted"); return err(EINTR); }
    int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; Fd &f = F(p[i].fd, "poll"); if ((p[i].events & POLLIN) && readable(f)) p[i].revents |= POLLIN; if ((p[i].events & POLLOUT) && writable(f)) p[i].revents |= POLLOUT; if (f.c && f.c->then == RESETS && f.c->at >= f.c->seg.size()) p[i].revents |= POLLERR | POLLHUP; c += p[i].revents != 0; }
    if (!c) { if (ms < 0) mc::fail("blocked", "poll without a limit and nothing to come"); mc::vclock_ns += ms * 1000000l; }
    return c; }
}

struct Req { std::string text; std::vector<std::string> events; std::vector<std::string> answers; bool valid; };   // answers: names of the members expected, in order
static std::vector<Req> requests() {
    std::vector<Req> v; auto R = [&](const char *t, std::vector<std::string> e, std::vector<std::string> a, bool ok = true) { Req r; r.text = t; r.events = e; r.answers = a; r.valid = ok; v.push_back(r); };
    R("{\"events\":[{\"action\":\"ok\"}]}", {"{\"action\":\"ok\"}"}, {"error:null"});
    R("{\"events\":[{\"action\":\"x\"},{\"action\":\"state\"},{\"action\":\"ok\"}]}", {"{\"action\":\"x\"}", "{\"action\":\"state\"}", "{\"action\":\"ok\"}"}, {"error:failed", "filters", "paths", "error:null"});
    R("{\"events\":[]}", {}, {});
    R("{\"events\":[{},7,{\"action\":\"ok\"}]}", {"{}", "{\"action\":\"ok\"}"}, {"error:failed", "error:*", "error:null"});
    R("{\"other\":[]}", {}, {"error:*"});
    R("{\"events\":{\"action\":\"ok\"}}", {}, {"error:*"});
    R("{\"events\":[{\"action\":\"ok\"}", {}, {"error:*"}, false);        // never completed
    R("{\"events\":[{\"action\":\"ok\"}]]}", {}, {"error:*"}, false);
    R("rubbish", {}, {"error:*"}, false);
    R("", {}, {"error:*"}, false);
    R("{}", {}, {"error:*"});
    R("\n{ \"events\" : [ { \"action\" : \"ok\" } ] }\n", {"{\"action\":\"ok\"}"}, {"error:null"});
    return v;
}
static void check_answer(const Client &c, const Req &r, int first) {
    Jzon::Object o; Jzon::Parser p(o, c.got);
    MC_CHECK(p.Parse(), "answer", "the answer is not a document: '%s'", c.got.substr(0, 200).c_str());
    std::vector<std::string> got; int k = first;
    for (auto it = o.begin(); it != o.end(); ++it) { std::string n = (*it).first; const Jzon::Node &v = (*it).second; got.push_back(n == "error" ? (v.IsNull() ? "error:null" : "error:" + v.ToString()) : n); }
    MC_CHECK(got.size() == r.answers.size(), "answer", "request %s is answered with %s", r.text.substr(0, 200).c_str(), c.got.substr(0, 200).c_str());
    for (size_t i = 0; i < got.size(); i++) { const std::string &a = r.answers[i]; bool ok = a == "error:*" ? got[i].size() > 6 && got[i] != "error:null" : a == "error:failed" ? got[i] == "error:failed " + std::to_string(k + 1) : a == got[i]; if (a == "error:failed" || a == "error:null" || a == "filters") k++;
        MC_CHECK(ok, "answer", "part %zu of the answer to %s is %s", i, r.text.substr(0, 200).c_str(), got[i].c_str()); }
}

void mc_body() {
    Net n; n.next = BASE; n.faults = 0; n.idle = 0; n.bound = n.listening = false; n.fail_socket = 0; net = &n;
    std::vector<std::string> ex; executed = &ex; answer_no = 0; filler = mc::param("filler", 3);
    Controller *ctrl = Controller::getInstance();
    std::string mode = mc::sparam("mode", "talk");
    if (mode == "socket") {
        n.fail_socket = mc::choose(4); bool ok = ctrl->createSocket(7777); mc::op("create socket with failure %d: %s", n.fail_socket, ok ? "ok" : "refused");
        MC_CHECK(ok == (n.fail_socket == 0), "socket", "creating the socket %s", ok ? "succeeds" : "fails");
        int open = 0; for (auto &f : n.fd) open += f.second.open; MC_CHECK(open == (ok ? 1 : 0), "leak", "%d descriptors are open", open);
        n.fail_socket = 0; if (!ok) { ok = ctrl->createSocket(7777); MC_CHECK(ok, "socket", "the socket cannot be created later"); }
        MC_CHECK(!ctrl->listenSocket(), "listen", "a client was accepted although there is none");
    } else if (!ctrl->createSocket(7777)) mc::fail("socket", "the socket is not created");
    const std::vector<Req> reqs = requests();
    const int clients = mode == "socket" ? 1 : mc::param("clients", 2), cuts = mc::param("cuts", 1), step = mc::param("step", 1);
    uint64_t summary = 0;
    for (int k = 0; k < clients; k++) {
        bool last = k == clients - 1 && clients > 1;
        Client *c = new Client(); c->at = c->off = 0; c->accepted = c->closed = c->gone = false; c->fd = -1;
        Req r;
        if (mode == "size" && !last) {            // a long request
            size_t want = std::vector<size_t>{4095, 4096, 8191, 16382, 16383, 16384, 16385, 40000}[mc::choose(8)];
            r = reqs[0]; std::string head = "{\"pad\":\"", tail = "\",\"events\":[{\"action\":\"ok\"}]}"; r.text = head + std::string(want - head.size() - tail.size(), 'y') + tail;
            size_t piece = std::vector<size_t>{100000, 1460, 4096, 16383, 16384}[mc::choose(5)];
            for (size_t i = 0; i < r.text.size(); i += piece) c->seg.push_back(r.text.substr(i, piece));
        } else {
            r = last ? reqs[0] : reqs[mc::choose(mc::param("reqs", 12))];
            size_t from = 0; for (int x = 0; x < cuts && !last; x++) { size_t room = r.text.size() - from; if (room < 2) break; size_t cut = mc::choose((room - 1) / step + 1); if (!cut) break; cut = from + std::min(cut * step, room - 1); c->seg.push_back(r.text.substr(from, cut - from)); from = cut; }
            if (from < r.text.size()) c->seg.push_back(r.text.substr(from));
        }
        c->then = last ? WAITS : mc::choose(4);
        n.partials = last ? 1000 : 0; n.faults = last ? 0 : mc::param("faults", 1);
        n.queue.push_back(c); size_t ex0 = ex.size(); int first = answer_no;
        std::string what = r.text.substr(0, 60); for (size_t i = 0; i + 1 < c->seg.size() && i < 3; i++) what += "/" + std::to_string(c->seg[i].size());
        mc::op("client %d sends %s then %s", k, what.c_str(), c->then == WAITS ? "waits" : c->then == LEAVES ? "leaves" : c->then == RESETS ? "resets" : "does not read");
        // the server's loop, as in tests/liveMediaStreamer.cpp
        bool served = false; int turns = 0; int64_t t0 = mc::vclock_ns;
        while (!n.queue.empty() && turns++ < 20) { if (!ctrl->listenSocket()) continue; if (ctrl->readAndParse()) ctrl->processRequest(); served = true; }
        n.faults = 0;
        MC_CHECK(n.queue.empty(), "ignored", "client %d is not accepted", k);
        for (auto &f : n.fd) if (f.second.kind == 2) MC_CHECK(!f.second.open, "leak", "the connection of client %d is left open", k);
        MC_CHECK(mc::vclock_ns - t0 <= 10000000000ll, "slow", "client %d keeps the controller for %ld ms", k, (long)((mc::vclock_ns - t0) / 1000000));
        size_t done = ex.size() - ex0;
        if (served) {
            bool fits = r.text.size() <= 16383, cut = false;
            std::vector<std::string> got(ex.begin() + ex0, ex.end());
            bool all = r.valid && got == r.events;
            if (!r.valid) MC_CHECK(got.empty(), "executed", "%zu events of %s are executed", done, r.text.substr(0, 100).c_str());
            else if (fits) MC_CHECK(all, "executed", "request %s executed %zu events, the first %s", r.text.substr(0, 100).c_str(), done, done ? got[0].c_str() : "-");
            else MC_CHECK(got.empty() || all, "executed", "a request of %zu bytes is executed in part", r.text.size());
            if (c->then == WAITS || (c->then == LEAVES && c->gone)) {      // a client that has left may still get the beginning
                if (c->then == WAITS) { if (fits || all) check_answer(*c, r, first); else { Req x; x.text = r.text; x.answers = {"error:*"}; check_answer(*c, x, first); } }
            }
            summary = mc::Hash().add(summary).add(done).add(c->got.size() > 0).h;
        }
        if (last) MC_CHECK(served && done == 1, "next", "the client after it is not served");
        mc::state(mc::Hash().add(done).add(c->got).add(c->then).h);
        for (auto it = n.fd.begin(); it != n.fd.end(); ) if (it->second.kind == 2) it = n.fd.erase(it); else ++it;
        delete c;
        n.next = BASE + 1;
    }
    mc::outcome(summary);
    ctrl->stopAndCloseSocket();
    for (auto &f : n.fd) MC_CHECK(!f.second.open, "leak", "a descriptor is left open");
    Controller::destroyInstance();
    net = NULL;
}
