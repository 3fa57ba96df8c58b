// C24: calls on files and sockets transfer the same bytes as their POSIX counterparts.
//
// The calls reach the real kernel: unnamed pipes, socket pairs, abstract unix sockets, sockets on 127.0.0.0/8 and files
// in a scratch directory that are removed as soon as they are open.  On their way they pass through the functions below, which
// can interrupt them, make them find nothing to do, or make them transfer less, as POSIX allows.
#include <sys/socket.h>
#include <sys/stat.h>
#include "common.h"
#include "cocpp/io/co_client.h"
#include "cocpp/io/co_file.h"
#include "cocpp/io/co_io.h"
#include "cocpp/io/co_net.h"
#include <arpa/inet.h>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

namespace
{
// ---- what happens to a call before it reaches the kernel
bool armed = false;
int first_fd = 1 << 30;
uint64_t fault_seed = 0, fault_no = 0;
int p_intr = 0, p_again = 0, p_short = 0, p_late = 0; // percent
int late_error[4096];                                 // outcome of a connect that is reported later
int faults_made = 0;

bool ours(int fd) { return armed && fd >= first_fd && fd < 4096; }
uint64_t rnd()
{
    uint64_t z = fault_seed + ++fault_no * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
bool hit(int percent) { return percent && (int)(rnd() % 100) < percent; }
bool nonblocking(int fd) { return syscall(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK; }
bool stream(int fd)
{
    int type = 0;
    socklen_t l = sizeof type;
    if (syscall(SYS_getsockopt, fd, SOL_SOCKET, SO_TYPE, &type, &l) != 0) return true; // not a socket
    return type == SOCK_STREAM;
}
int ready(int fd, short ev)
{
    pollfd p {fd, ev, 0};
    timespec z {0, 0};
    return (int)syscall(SYS_ppoll, &p, 1, &z, nullptr, 0);
}
// true: the call fails with errno
bool faulty(int fd, int flags, short ev)
{
    vs_point();
    if (hit(p_intr))
    {
        ++faults_made;
        errno = EINTR;
        return true;
    }
    bool nb = nonblocking(fd) || (flags & MSG_DONTWAIT);
    if (nb && hit(p_again))
    {
        ++faults_made;
        errno = EAGAIN;
        return true;
    }
    if (!nb)
        while (!ready(fd, ev)) std::this_thread::sleep_for(1ms); // as the thread would
    return false;
}
// Acknowledgements between sockets of this host take real time, which does not pass here.
int idle = 0, waited_ms = 0;
long settle(int fd, long r)
{
    if (r != -1 || errno != EAGAIN)
    {
        idle = 0;
        return r;
    }
    sockaddr_storage a;
    socklen_t l = sizeof a;
    if (++idle > 200 && waited_ms < 2000 && syscall(SYS_getsockname, fd, &a, &l) == 0 && a.ss_family == AF_INET)
    {
        ++waited_ms;
        timespec t {0, 1000000};
        syscall(SYS_nanosleep, &t, nullptr);
    }
    errno = EAGAIN;
    return r;
}
size_t shorter(int fd, size_t n)
{
    if (n < 2 || !hit(p_short) || !stream(fd)) return n;
    ++faults_made;
    return 1 + rnd() % n;
}
}

extern "C" {
ssize_t read(int fd, void *buf, size_t n)
{
    if (!ours(fd)) return syscall(SYS_read, fd, buf, n);
    if (faulty(fd, 0, POLLIN)) return -1;
    return settle(fd, syscall(SYS_read, fd, buf, shorter(fd, n)));
}
ssize_t write(int fd, const void *buf, size_t n)
{
    if (!ours(fd)) return syscall(SYS_write, fd, buf, n);
    if (faulty(fd, 0, POLLOUT)) return -1;
    return settle(fd, syscall(SYS_write, fd, buf, shorter(fd, n)));
}
ssize_t sendto(int fd, const void *buf, size_t n, int flags, const sockaddr *a, socklen_t l)
{
    if (!ours(fd)) return syscall(SYS_sendto, fd, buf, n, flags, a, l);
    if (faulty(fd, flags, POLLOUT)) return -1;
    return settle(fd, syscall(SYS_sendto, fd, buf, shorter(fd, n), flags, a, l));
}
ssize_t send(int fd, const void *buf, size_t n, int flags) { return sendto(fd, buf, n, flags, nullptr, 0); }
ssize_t recvfrom(int fd, void *buf, size_t n, int flags, sockaddr *a, socklen_t *l)
{
    if (!ours(fd)) return syscall(SYS_recvfrom, fd, buf, n, flags, a, l);
    if (faulty(fd, flags, POLLIN)) return -1;
    return settle(fd, syscall(SYS_recvfrom, fd, buf, shorter(fd, n), flags, a, l));
}
ssize_t recv(int fd, void *buf, size_t n, int flags) { return recvfrom(fd, buf, n, flags, nullptr, nullptr); }
ssize_t sendmsg(int fd, const msghdr *m, int flags)
{
    if (ours(fd) && faulty(fd, flags, POLLOUT)) return -1;
    return settle(fd, syscall(SYS_sendmsg, fd, m, flags));
}
ssize_t recvmsg(int fd, msghdr *m, int flags)
{
    if (ours(fd) && faulty(fd, flags, POLLIN)) return -1;
    return settle(fd, syscall(SYS_recvmsg, fd, m, flags));
}
int accept(int fd, sockaddr *a, socklen_t *l)
{
    if (ours(fd) && faulty(fd, 0, POLLIN)) return -1;
    return (int)settle(fd, syscall(SYS_accept4, fd, a, l, 0));
}
int accept4(int fd, sockaddr *a, socklen_t *l, int flags)
{
    if (ours(fd) && faulty(fd, 0, POLLIN)) return -1;
    return (int)syscall(SYS_accept4, fd, a, l, flags);
}
int connect(int fd, const sockaddr *a, socklen_t l)
{
    if (!ours(fd)) return (int)syscall(SYS_connect, fd, a, l);
    vs_point();
    int r = (int)syscall(SYS_connect, fd, a, l);
    if (r == -1 && errno == ECONNREFUSED && a->sa_family == AF_INET && stream(fd) && nonblocking(fd) && hit(p_late))
    {
        late_error[fd] = ECONNREFUSED;
        ++faults_made;
        errno = EINPROGRESS;
    }
    return r;
}
int getsockopt(int fd, int level, int name, void *v, socklen_t *l)
{
    if (ours(fd) && level == SOL_SOCKET && name == SO_ERROR && late_error[fd] && *l >= sizeof(int))
    {
        *(int *)v = late_error[fd];
        *l = sizeof(int);
        late_error[fd] = 0;
        return 0;
    }
    return (int)syscall(SYS_getsockopt, fd, level, name, v, l);
}
static bool not_yet(int64_t ms)
{
    vs_point();
    if (!hit(p_late)) return false;
    ++faults_made;
    if (ms > 0) std::this_thread::sleep_for(std::chrono::milliseconds(ms));
    return true;
}
int poll(pollfd *f, nfds_t n, int ms)
{
    if (armed && n == 1 && ours(f->fd))
    {
        if (ms >= 0 && not_yet(ms))
        {
            f->revents = 0;
            return 0;
        }
        int r;
        do
        {
            timespec z {0, 0};
            r = (int)syscall(SYS_ppoll, f, n, &z, nullptr, 0);
            errno = EAGAIN;
            settle(f->fd, r == 0 ? -1 : 0);
            if (r == 0 && ms != 0) std::this_thread::sleep_for(1ms);
        } while (r == 0 && ms != 0 && (ms < 0 || --ms > 0));
        return r;
    }
    timespec t {ms / 1000, ms % 1000 * 1000000l};
    return (int)syscall(SYS_ppoll, f, n, ms < 0 ? nullptr : &t, nullptr, 0);
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, timeval *t)
{
    if (armed && n - 1 >= first_fd && t && not_yet(t->tv_sec * 1000 + t->tv_usec / 1000))
    {
        if (r) FD_ZERO(r);
        if (w) FD_ZERO(w);
        if (e) FD_ZERO(e);
        t->tv_sec = t->tv_usec = 0;
        return 0;
    }
    if (!t) return (int)syscall(SYS_pselect6, n, r, w, e, nullptr, nullptr);
    timespec ts {0, 0};
    int x = (int)syscall(SYS_pselect6, n, r, w, e, &ts, nullptr);
    if (x == 0) std::this_thread::sleep_for(std::chrono::microseconds(t->tv_sec * 1000000 + t->tv_usec));
    t->tv_sec = t->tv_usec = 0;
    return x;
}
}

namespace
{
enum { L_FILE, L_PIPE, L_PAIR, L_TCP, L_UNIX, L_SEQ, L_DGRAM, L_UDP, L_REFUSED, L_CLIENT, L_N };
const char *lnames[] = {"file", "pipe", "stream pair", "tcp", "unix stream", "seqpacket pair", "datagram pair", "udp", "refused", "client"};
enum { H_RW, H_PLAIN, H_MSG, H_ADDR, H_N }; // read/write, send/recv, sendmsg/recvmsg, sendto/recvfrom
struct Xfer
{
    int how, size;
    Work w;
};
enum { F_READ, F_WRITE, F_SEEK_SET, F_SEEK_CUR, F_SEEK_END, F_TRUNC, F_STAT, F_SYNC, F_DATASYNC, F_CHMOD, F_FLAGS, F_CLOEXEC, F_DUP, F_AVAIL, F_FAR, F_N };
const char *fnames[] = {"read", "write", "seek set", "seek cur", "seek end", "truncate", "stat", "sync", "datasync", "chmod", "getfl", "cloexec", "dup", "avail", "far"};
struct FileOp
{
    int h, op, n;
};
struct Link
{
    int kind;
    Place a, b;
    std::vector<Xfer> snd, rcv;
    int sndbuf, early, clients, backlog;
    bool reply, shut;
    std::vector<FileOp> ops;
    int flags0, flags1;
    bool inet;
};
struct Program
{
    std::vector<Link> links;
    int64_t seed;
    int intr, again, shrt, late;
} P;

Work small_work(Gen &g)
{
    Work w;
    if (g.chance(65)) return w;
    w.kind = g.weighted({0, 3, 1, 2});
    w.n = w.kind == W_YIELD ? g.range(1, 3) : w.kind == W_SLEEP ? 1 : g.range(1, 10);
    return w;
}
int gen_size(Gen &g) { return g.pick({1, 2, 7, 64, 300, 1000, 4096, 9000}); }
void generate(Gen &g)
{
    P = Program();
    while (g.more(P.links.size(), 1, 3, 1))
    {
        Link l {};
        l.kind = g.range(0, L_N - 1);
        l.a = gen_place(g, true, true, false);
        l.b = gen_place(g, true, true, false);
        if (g.chance(30)) l.b = l.a = Place {K_BOUND, g.range(0, 1), 99};
        bool dgram = l.kind == L_SEQ || l.kind == L_DGRAM || l.kind == L_UDP;
        if (l.kind == L_FILE)
        {
            l.flags0 = g.range(0, 1);
            l.flags1 = g.range(0, 3);
            while (g.more(l.ops.size(), 1, 25, 8))
            {
                FileOp o {};
                o.h = g.range(0, 1);
                o.op = g.weighted({6, 6, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1});
                o.n = g.pick({0, 1, 2, 7, 64, 300, 1000, 4096, 9000});
                l.ops.push_back(o);
            }
        }
        else
        {
            while (g.more(l.snd.size(), 1, 12, 4))
            {
                Xfer x {};
                x.how = g.range(0, H_N - 1);
                x.size = gen_size(g);
                if (dgram && x.size > 1000) x.size = 1000 + x.size % 7;
                x.w = small_work(g);
                l.snd.push_back(x);
            }
            while (g.more(l.rcv.size(), 1, 4, 2))
            {
                Xfer x {};
                x.how = g.range(0, H_N - 1);
                x.size = gen_size(g);
                x.w = small_work(g);
                l.rcv.push_back(x);
            }
        }
        if (!dgram) // not too many transfers
        {
            int sum = 0;
            for (auto &x : l.snd) sum += x.size;
            for (auto &x : l.rcv) x.size = std::max(x.size, sum / 80);
        }
        l.sndbuf = g.pick({0, 0, 2000, 4000});
        l.early = g.chance(20) ? g.range(0, 3) : -1;
        l.clients = g.range(1, 3);
        l.backlog = g.range(0, 2);
        l.reply = g.chance(50);
        l.shut = g.chance(50);
        l.inet = g.chance(50);
        P.links.push_back(l);
    }
    P.seed = g.draw(1 << 30);
    P.intr = g.pick({0, 0, 10, 40});
    P.again = g.pick({0, 0, 10, 40});
    P.shrt = g.pick({0, 0, 30, 80});
    P.late = g.pick({0, 50, 80});
}
std::string render()
{
    std::string s = strf("faults{interrupted %d%% nothing %d%% short %d%% late %d%% seed %ld} ", P.intr, P.again, P.shrt, P.late, (long)P.seed);
    const char *hs[] = {"write", "send", "sendmsg", "sendto"}, *hr[] = {"read", "recv", "recvmsg", "recvfrom"};
    for (auto &l : P.links)
    {
        s += strf("%s[%s -> %s", lnames[l.kind], render_place(l.a).c_str(), render_place(l.b).c_str());
        if (l.kind == L_FILE)
        {
            s += strf(" flags%d,%d:", l.flags0, l.flags1);
            for (auto &o : l.ops) s += strf(" %d.%s(%d)", o.h, fnames[o.op], o.n);
        }
        else
        {
            if (l.kind == L_TCP || l.kind == L_UNIX) s += strf(" %d clients backlog %d%s%s", l.clients, l.backlog, l.reply ? " reply" : "", l.shut ? " shutdown" : "");
            if (l.kind == L_REFUSED) s += l.inet ? " inet" : " unix";
            if (l.early >= 0) s += strf(" receiver stops after %d", l.early);
            s += strf(" buf%d:", l.sndbuf);
            for (auto &x : l.snd) s += strf(" %s(%d) %s", hs[x.how], x.size, render_work(x.w).c_str());
            s += "|";
            for (auto &x : l.rcv) s += strf(" %s(%d) %s", hr[x.how], x.size, render_work(x.w).c_str());
        }
        s += "]; ";
    }
    return s;
}

unsigned char pat(size_t salt, size_t pos) { return (unsigned char)(pos * 131 + salt * 89 + (pos >> 8) * 7 + 1); }
void fill(std::vector<unsigned char> &v, size_t salt, size_t pos)
{
    for (size_t i = 0; i < v.size(); ++i) v[i] = pat(salt, pos + i);
}
int port_counter = 0;
sockaddr_in inet_addr_of(int i)
{
    unsigned p = (unsigned)::getpid();
    sockaddr_in a {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(0x7F000000u | ((p & 0x3FFFFFu) + 256));
    a.sin_port = htons((uint16_t)(10000 + (i * 7 + (p >> 3)) % 20000));
    return a;
}
struct Addr
{
    sockaddr_storage s {};
    socklen_t len = 0;
    sockaddr *p() { return (sockaddr *)&s; }
};
Addr new_addr(bool inet)
{
    Addr r;
    int i = port_counter++;
    if (inet)
    {
        auto a = inet_addr_of(i);
        memcpy(&r.s, &a, sizeof a);
        r.len = sizeof a;
    }
    else
    {
        sockaddr_un u {};
        u.sun_family = AF_UNIX;
        int n = snprintf(u.sun_path + 1, 60, "cocpp-verif-%d-%d", ::getpid(), i);
        memcpy(&r.s, &u, sizeof u);
        r.len = (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + (size_t)n);
    }
    return r;
}

// one transfer out; returns what the call returned
int put(co_net &c, const Xfer &x, const unsigned char *p, size_t n, Addr *to = nullptr)
{
    int how = x.how;
    if (to && how < H_MSG) how = H_ADDR;
    switch (how)
    {
    case H_RW: return c.write(p, n);
    case H_PLAIN: return c.send(p, n, 0);
    case H_ADDR: return c.sendto(p, n, 0, to ? to->p() : nullptr, to ? to->len : 0);
    default: {
        iovec v[2] = {{(void *)p, n / 3}, {(void *)(p + n / 3), n - n / 3}};
        msghdr m {};
        m.msg_iov = v;
        m.msg_iovlen = 2;
        if (to)
        {
            m.msg_name = to->p();
            m.msg_namelen = to->len;
        }
        return c.sendmsg(&m, 0);
    }
    }
}
int get(co_net &c, const Xfer &x, unsigned char *p, size_t n, Addr *from = nullptr)
{
    int how = x.how;
    if (from && how < H_MSG) how = H_ADDR;
    switch (how)
    {
    case H_RW: return c.read(p, n);
    case H_PLAIN: return c.recv(p, n, 0);
    case H_ADDR: {
        if (!from) return c.recvfrom(p, n, 0, nullptr, nullptr);
        from->len = sizeof from->s;
        return c.recvfrom(p, n, 0, from->p(), &from->len);
    }
    default: {
        iovec v[2] = {{p, n / 3}, {p + n / 3, n - n / 3}};
        msghdr m {};
        m.msg_iov = v;
        m.msg_iovlen = 2;
        if (from)
        {
            m.msg_name = from->p();
            m.msg_namelen = sizeof from->s;
        }
        int r = c.recvmsg(&m, 0);
        if (from) from->len = m.msg_namelen;
        return r;
    }
    }
}

std::atomic<int> moved {0};
// sends the pattern; true if all of it went out
bool send_all(co_net &c, const Link &l, size_t salt, bool sock, bool until_error, size_t &pos)
{
    std::vector<unsigned char> b;
    for (size_t i = 0; until_error || i < l.snd.size(); ++i)
    {
        Xfer x = l.snd[i % l.snd.size()];
        if (!sock) x.how = H_RW;
        b.resize((size_t)x.size);
        size_t left = b.size();
        while (left)
        {
            fill(b, salt, pos);
            do_work(x.w);
            int r = put(c, x, b.data(), left);
            if (r == -1)
            {
                int e = errno;
                CHECK(l.early >= 0, "a transfer to an open peer failed with %s", strerror(e));
                CHECK(e == EPIPE || e == ECONNRESET, "a transfer to a closed peer failed with %s", strerror(e));
                return false;
            }
            CHECK(r > 0 && (size_t)r <= left, "a transfer of %zu bytes returned %d", left, r);
            vs_progress();
            ++moved;
            pos += (size_t)r;
            left -= (size_t)r;
            b.resize(left);
        }
    }
    return true;
}
// receives the pattern until the end or for early transfers
size_t recv_all(co_net &c, const Link &l, size_t salt, bool sock, size_t pos)
{
    for (size_t i = 0; l.early < 0 || i < (size_t)l.early; ++i)
    {
        Xfer x = l.rcv[i % l.rcv.size()];
        if (!sock) x.how = H_RW;
        std::vector<unsigned char> b((size_t)x.size + 8, 0xEE);
        do_work(x.w);
        int r = get(c, x, b.data(), (size_t)x.size);
        if (r == -1) fail("receiving failed with %s", strerror(errno));
        CHECK(r <= x.size, "receiving into %d bytes returned %d", x.size, r);
        for (size_t k = (size_t)r; k < b.size(); ++k) CHECK(b[k] == 0xEE, "receiving changed memory after the bytes it returned");
        if (r == 0) break;
        for (int k = 0; k < r; ++k) CHECK(b[(size_t)k] == pat(salt, pos + (size_t)k), "byte %zu is %d instead of %d", pos + (size_t)k, b[(size_t)k], pat(salt, pos + (size_t)k));
        pos += (size_t)r;
        vs_progress();
        ++moved;
    }
    return pos;
}
size_t total(const Link &l)
{
    size_t n = 0;
    for (auto &x : l.snd) n += (size_t)x.size;
    return n;
}
void buffers(co_net &c, const Link &l)
{
    if (!l.sndbuf) return;
    int v = l.sndbuf, w = 0;
    socklen_t n = sizeof w;
    CHECK(c.setsockopt(SOL_SOCKET, SO_SNDBUF, &v, sizeof v) == 0, "setting an option failed: %s", strerror(errno));
    CHECK(c.getsockopt(SOL_SOCKET, SO_SNDBUF, &w, &n) == 0 && w >= v && n == sizeof w, "getting an option failed");
}
void check_closed(co_net &c)
{
    CHECK(c.close() == 0, "closing failed with %s", strerror(errno));
    char x;
    errno = 0;
    int r = c.read(&x, 1);
    CHECK(r == -1 && errno == EBADF, "reading after closing returned %d (%s)", r, strerror(errno));
}

// pipe, pair of stream sockets
void start_pair(Actors &as, Link &l, size_t salt)
{
    int fd[2];
    bool sock = l.kind == L_PAIR;
    if (sock ? socketpair(AF_UNIX, SOCK_STREAM, 0, fd) : pipe(fd)) fail("no descriptors");
    auto tx = std::make_shared<co_net>(), rx = std::make_shared<co_net>();
    CHECK(rx->init_fd(fd[0]) == 0 && tx->init_fd(fd[1]) == 0, "init_fd failed");
    if (sock) buffers(*tx, l);
    auto sent = std::make_shared<std::atomic<size_t> >(0);
    as.spawn(l.a, [&l, tx, salt, sock, sent] {
        size_t pos = 0;
        send_all(*tx, l, salt, sock, l.early >= 0, pos);
        *sent = pos;
        if (sock && l.shut)
        {
            int r = tx->shutdown(SHUT_WR);
            CHECK(r == 0 || l.early >= 0, "shutdown failed with %s", strerror(errno));
        }
        check_closed(*tx);
    });
    as.spawn(l.b, [&l, rx, salt, sock] {
        size_t got = recv_all(*rx, l, salt, sock, 0);
        CHECK(l.early >= 0 || got == total(l), "%zu bytes arrived instead of %zu", got, total(l));
        check_closed(*rx);
    });
}

// listen, accept, connect
void start_net(Actors &as, Link &l, size_t salt)
{
    bool inet = l.kind == L_TCP;
    Addr a = new_addr(inet);
    auto srv = co_net::socket(inet ? AF_INET : AF_UNIX, SOCK_STREAM, 0);
    CHECK(srv.has_value(), "socket failed: %s", strerror(errno));
    int one = 1;
    if (inet) srv->setsockopt(SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    int r = srv->bind(a.p(), a.len);
    if (r != 0 && errno == EADDRINUSE) return; // somebody else's port
    CHECK(r == 0, "bind failed: %s", strerror(errno));
    CHECK(srv->listen(inet ? 16 : l.backlog) == 0, "listen failed: %s", strerror(errno));
    auto s = std::make_shared<co_net>(*srv);
    as.spawn(l.b, [&l, s, salt, inet] {
        std::vector<std::unique_ptr<co> > handlers;
        for (int i = 0; i < l.clients; ++i)
        {
            Addr from;
            from.len = sizeof from.s;
            auto c = s->accept(from.p(), &from.len);
            CHECK(c.has_value(), "accept failed: %s", strerror(errno));
            CHECK(from.s.ss_family == (inet ? AF_INET : AF_UNIX), "accept returned no address");
            vs_progress();
            handlers.push_back(std::make_unique<co>([&l, c = *c, salt]() mutable {
                unsigned char id;
                int r = c.recv(&id, 1, 0);
                CHECK(r == 1 && id < l.clients, "the first byte of a connection did not arrive: %d", r);
                size_t got = recv_all(c, l, salt + id, true, 0);
                CHECK(l.early >= 0 || got == total(l), "%zu bytes arrived instead of %zu", got, total(l));
                if (l.early < 0 && l.reply && l.shut)
                {
                    unsigned char b[8];
                    for (int k = 0; k < 8; ++k) b[k] = (unsigned char)(got >> 8 * k);
                    size_t done = 0;
                    while (done < 8)
                    {
                        int r = c.write(b + done, 8 - done);
                        CHECK(r > 0, "the reply failed: %s", strerror(errno));
                        done += (size_t)r;
                    }
                }
                check_closed(c);
                vs_progress();
            }));
        }
        for (auto &h : handlers) h->join();
        check_closed(*s);
    });
    for (int i = 0; i < l.clients; ++i)
        as.spawn(l.a, [&l, a, i, salt, inet]() mutable {
            auto c = co_net::socket(inet ? AF_INET : AF_UNIX, SOCK_STREAM, 0);
            CHECK(c.has_value(), "socket failed: %s", strerror(errno));
            buffers(*c, l);
            int r = c->connect(a.p(), a.len);
            CHECK(r == 0, "connect returned %d (%s) although somebody listens", r, strerror(errno));
            vs_progress();
            unsigned char id = (unsigned char)i;
            r = c->send(&id, 1, 0);
            CHECK(r == 1, "sending on a new connection returned %d (%s)", r, strerror(errno));
            size_t pos = 0;
            bool all = send_all(*c, l, salt + (size_t)i, true, l.early >= 0, pos);
            if (l.shut && all)
            {
                CHECK(c->shutdown(SHUT_WR) == 0, "shutdown failed with %s", strerror(errno));
                if (l.reply)
                {
                    unsigned char b[8];
                    size_t done = 0;
                    while (done < 8)
                    {
                        int r = c->read(b + done, 8 - done);
                        CHECK(r > 0, "the reply did not arrive: %d", r);
                        done += (size_t)r;
                    }
                    size_t n = 0;
                    for (int k = 0; k < 8; ++k) n |= (size_t)b[k] << 8 * k;
                    CHECK(n == pos, "the peer says it received %zu bytes instead of %zu", n, pos);
                }
                char x;
                r = c->recv(&x, 1, 0);
                CHECK(r == 0, "receiving from a closed peer returned %d", r);
            }
            check_closed(*c);
        });
}

// messages keep their limits
void start_dgram(Actors &as, Link &l, size_t salt)
{
    auto tx = std::make_shared<co_net>(), rx = std::make_shared<co_net>();
    Addr from, to;
    bool udp = l.kind == L_UDP, connected = l.reply;
    if (udp)
    {
        from = new_addr(true);
        to = new_addr(true);
        auto x = co_net::socket(AF_INET, SOCK_DGRAM, 0), y = co_net::socket(AF_INET, SOCK_DGRAM, 0);
        CHECK(x && y, "socket failed: %s", strerror(errno));
        *tx = *x;
        *rx = *y;
        if (tx->bind(from.p(), from.len) || rx->bind(to.p(), to.len)) return; // somebody else's port
    }
    else
    {
        int fd[2];
        if (socketpair(AF_UNIX, l.kind == L_SEQ ? SOCK_SEQPACKET : SOCK_DGRAM, 0, fd)) fail("no descriptors");
        CHECK(rx->init_fd(fd[0]) == 0 && tx->init_fd(fd[1]) == 0, "init_fd failed");
        if (l.sndbuf) buffers(*tx, l);
    }
    as.spawn(l.a, [&l, tx, salt, udp, connected, to]() mutable {
        if (udp && connected)
        {
            int r = tx->connect(to.p(), to.len);
            CHECK(r == 0, "connect returned %d (%s) for a datagram socket", r, strerror(errno));
        }
        for (size_t i = 0; i < l.snd.size(); ++i)
        {
            auto &x = l.snd[i];
            std::vector<unsigned char> b((size_t)x.size);
            fill(b, salt + i, 0);
            do_work(x.w);
            int r = put(*tx, x, b.data(), b.size(), udp && !connected ? &to : nullptr);
            CHECK(r == x.size, "sending a message of %d bytes returned %d (%s)", x.size, r, strerror(errno));
            vs_progress();
            ++moved;
        }
        if (!udp) check_closed(*tx);
    });
    as.spawn(l.b, [&l, rx, tx, salt, udp, from]() mutable {
        for (size_t i = 0; i < l.snd.size(); ++i)
        {
            auto &x = l.rcv[i % l.rcv.size()];
            std::vector<unsigned char> b((size_t)x.size + 8, 0xEE);
            Addr src;
            do_work(x.w);
            int r = get(*rx, x, b.data(), (size_t)x.size, udp ? &src : nullptr);
            int want = std::min(x.size, l.snd[i].size);
            CHECK(r == want, "receiving message %zu of %d bytes into %d bytes returned %d", i, l.snd[i].size, x.size, r);
            for (int k = 0; k < r; ++k) CHECK(b[(size_t)k] == pat(salt + i, (size_t)k), "byte %d of message %zu is wrong", k, i);
            for (size_t k = (size_t)r; k < b.size(); ++k) CHECK(b[k] == 0xEE, "receiving changed memory after the bytes it returned");
            if (udp) CHECK(src.len == from.len && !memcmp(&src.s, &from.s, sizeof(sockaddr_in)), "the sender's address is wrong");
            vs_progress();
            ++moved;
        }
        check_closed(*rx);
    });
}

void start_refused(Actors &as, Link &l)
{
    as.spawn(l.a, [&l] {
        Addr a = new_addr(l.inet);
        auto c = co_net::socket(l.inet ? AF_INET : AF_UNIX, SOCK_STREAM, 0);
        CHECK(c.has_value(), "socket failed: %s", strerror(errno));
        errno = l.reply ? EINPROGRESS : 0;
        int r = c->connect(a.p(), a.len);
        int e = errno;
        CHECK(r == -1, "connect returned %d although nobody listens", r);
        CHECK(e == ECONNREFUSED, "connect failed with %s although nobody listens", strerror(e));
        check_closed(*c);
    });
}

class Client : public co_client
{
public:
    explicit Client(co_net n) { endpoint__ = n; }
    std::tuple<size_t, co_error> read(co_buffer &b) override { return co_client::read(b); }
    co_error read_n(co_buffer &b) override { return co_client::read_n(b); }
    std::tuple<size_t, co_error> write(const co_buffer &b) override { return co_client::write(b); }
    co_error write_n(const co_buffer &b) override { return co_client::write_n(b); }
    co_error close() override { return co_client::close(); }
    co_net get_endpoint() override { return co_client::get_endpoint(); }
};
void start_client(Actors &as, Link &l, size_t salt)
{
    int fd[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) fail("no descriptors");
    co_net t, u;
    CHECK(u.init_fd(fd[0]) == 0 && t.init_fd(fd[1]) == 0, "init_fd failed");
    buffers(t, l);
    auto tx = std::make_shared<Client>(t), rx = std::make_shared<Client>(u);
    as.spawn(l.a, [&l, tx, salt] {
        size_t pos = 0;
        for (size_t i = 0; l.early >= 0 || i < l.snd.size(); ++i)
        {
            auto &x = l.snd[i % l.snd.size()];
            std::vector<unsigned char> v((size_t)x.size);
            fill(v, salt, pos);
            co_buffer b(v.begin(), v.end());
            do_work(x.w);
            if (x.how % 2)
            {
                auto e = tx->write_n(b);
                if (e)
                {
                    CHECK(l.early >= 0 && e.code() == co_error_code::co_client_write_error, "writing %d bytes failed: %s", x.size, e.msg().c_str());
                    break;
                }
                pos += v.size();
            }
            else
            {
                auto [n, e] = tx->write(b);
                if (e)
                {
                    CHECK(l.early >= 0 && e.code() == co_error_code::co_client_write_error, "writing %d bytes failed: %s", x.size, e.msg().c_str());
                    break;
                }
                CHECK(n > 0 && n <= v.size(), "writing %zu bytes returned %zu", v.size(), n);
                pos += n;
            }
            vs_progress();
            ++moved;
        }
        note("client sent %zu", pos);
        CHECK(!tx->close(), "closing failed");
        co_buffer b(1);
        CHECK(std::get<1>(tx->write(b)), "writing after closing did not fail");
    });
    as.spawn(l.b, [&l, rx, salt] {
        size_t pos = 0;
        for (size_t i = 0; l.early < 0 || i < (size_t)l.early; ++i)
        {
            auto &x = l.rcv[i % l.rcv.size()];
            co_buffer b((size_t)x.size);
            size_t n = b.size();
            bool end = false;
            do_work(x.w);
            if (x.how % 2)
            {
                auto e = rx->read_n(b);
                if (e)
                {
                    CHECK(e.code() == co_error_code::co_client_read_error, "wrong error");
                    break; // fewer bytes were left
                }
            }
            else
            {
                auto [r, e] = rx->read(b);
                CHECK(!e, "reading failed: %s", e.msg().c_str());
                CHECK(r <= b.size(), "reading %zu bytes returned %zu", b.size(), r);
                n = r;
                end = r == 0;
            }
            if (end) break;
            for (size_t k = 0; k < n; ++k) CHECK((unsigned char)b[k] == pat(salt, pos + k), "byte %zu is wrong", pos + k);
            pos += n;
            vs_progress();
            ++moved;
        }
        CHECK(!rx->close(), "closing failed");
    });
}

void run_file(const Link &l, size_t salt)
{
    std::string dir = "/tmp/cocpp-verif-C24." + std::to_string(::getpid()) + "." + std::to_string(salt);
    if (mkdir(dir.c_str(), 0700)) fail("no scratch directory");
    std::string path = dir + "/f";
    errno = 0;
    auto none = co_file::open(path.c_str(), O_RDWR);
    CHECK(!none && errno == ENOENT, "a file that does not exist was opened");
    auto f0 = co_file::open(path.c_str(), O_RDWR | O_CREAT | (l.flags0 ? O_APPEND : 0), 0600);
    CHECK(f0.has_value(), "open failed: %s", strerror(errno));
    bool readonly = l.flags1 == 0;
    int fl = readonly ? O_RDONLY : O_RDWR | (l.flags1 == 2 ? O_APPEND : 0) | (l.flags1 == 3 ? O_TRUNC : 0);
    auto f1 = co_file::open(path.c_str(), fl);
    unlink(path.c_str());
    rmdir(dir.c_str());
    CHECK(f1.has_value(), "open failed: %s", strerror(errno));
    co_file h[2] = {*f0, *f1};
    bool append[2] = {l.flags0 == 1, l.flags1 == 2};
    size_t pos[2] = {0, 0};
    std::vector<unsigned char> data;
    int mode = 0600;
    for (size_t i = 0; i < l.ops.size(); ++i)
    {
        auto &o = l.ops[i];
        auto &f = h[o.h];
        auto &p = pos[o.h];
        bool ro = o.h == 1 && readonly;
        size_t n = (size_t)o.n;
        switch (o.op)
        {
        case F_READ: {
            std::vector<unsigned char> b(n + 8, 0xEE);
            int r = f.read(b.data(), n);
            size_t avail = p < data.size() ? std::min(n, data.size() - p) : 0;
            CHECK(r >= 0 && (size_t)r <= avail && (r || !avail), "reading %zu bytes with %zu left returned %d", n, avail, r);
            CHECK(p_short || (size_t)r == avail, "reading %zu bytes with %zu left returned %d", n, avail, r);
            for (size_t k = 0; k < (size_t)r; ++k) CHECK(b[k] == data[p + k], "byte %zu of the file is wrong", p + k);
            for (size_t k = (size_t)r; k < b.size(); ++k) CHECK(b[k] == 0xEE, "reading changed memory after the bytes it returned");
            p += (size_t)r;
            if (r) ++moved;
            break;
        }
        case F_WRITE: {
            std::vector<unsigned char> b(n);
            fill(b, salt + i, 0);
            errno = 0;
            int r = f.write(b.data(), n);
            if (ro)
            {
                CHECK(r == -1 && errno == EBADF, "writing to a file opened for reading returned %d (%s)", r, strerror(errno));
                break;
            }
            CHECK(r >= 0 && (size_t)r <= n && (r || !n), "writing %zu bytes returned %d", n, r);
            CHECK(p_short || (size_t)r == n, "writing %zu bytes returned %d", n, r);
            if (!n) break;
            if (append[o.h]) p = data.size();
            if (data.size() < p + (size_t)r) data.resize(p + (size_t)r);
            std::copy(b.begin(), b.begin() + r, data.begin() + (long)p);
            p += (size_t)r;
            ++moved;
            break;
        }
        case F_SEEK_SET:
        case F_SEEK_CUR:
        case F_SEEK_END: {
            long off = i % 3 ? (long)n : -(long)n;
            long base = o.op == F_SEEK_SET ? 0 : o.op == F_SEEK_CUR ? (long)p : (long)data.size();
            errno = 0;
            long r = f.lseek(off, o.op == F_SEEK_SET ? SEEK_SET : o.op == F_SEEK_CUR ? SEEK_CUR : SEEK_END);
            if (base + off < 0) CHECK(r == -1 && errno == EINVAL, "a seek before the beginning returned %ld", r);
            else
            {
                CHECK(r == base + off, "a seek to %ld returned %ld", base + off, r);
                p = (size_t)r;
            }
            break;
        }
        case F_TRUNC: {
            int r = f.ftruncate(o.n);
            if (ro) CHECK(r == -1 && errno == EINVAL, "truncating a file opened for reading returned %d", r);
            else
            {
                CHECK(r == 0, "truncating failed");
                data.resize(n);
            }
            break;
        }
        case F_STAT: {
            struct stat st;
            CHECK(f.fstat(&st) == 0, "fstat failed");
            CHECK((size_t)st.st_size == data.size(), "the size of the file is %zu instead of %zu", (size_t)st.st_size, data.size());
            CHECK((int)(st.st_mode & 0777) == mode, "the mode of the file is wrong");
            break;
        }
        case F_SYNC: CHECK(f.fsync() == 0, "fsync failed"); break;
        case F_DATASYNC: CHECK(f.fdatasync() == 0, "fdatasync failed"); break;
        case F_CHMOD:
            mode = n % 2 ? 0600 : 0640;
            CHECK(f.fchmod((mode_t)mode) == 0, "fchmod failed");
            break;
        case F_FLAGS: {
            int r = f.fcntl(F_GETFL);
            CHECK(r != -1 && (r & O_ACCMODE) == (ro ? O_RDONLY : O_RDWR) && !!(r & O_APPEND) == append[o.h], "F_GETFL returned %x", r);
            break;
        }
        case F_CLOEXEC: {
            CHECK(f.fcntl(F_SETFD, n % 2 ? FD_CLOEXEC : 0) == 0, "F_SETFD failed");
            int r = f.fcntl(F_GETFD);
            CHECK(r == (n % 2 ? FD_CLOEXEC : 0), "F_GETFD returned %d after setting %d", r, n % 2 ? FD_CLOEXEC : 0);
            break;
        }
        case F_DUP: {
            int at = 500 + o.n % 300;
            int r = f.fcntl(F_DUPFD, at);
            CHECK(r >= at && r < at + 200, "duplicating to a descriptor from %d on returned %d", at, r);
            ::close(r);
            break;
        }
        case F_AVAIL: {
            int v = -1;
            int r = f.ioctl(FIONREAD, &v);
            CHECK(r == 0 && v == (int)((long)data.size() - (long)p), "FIONREAD returned %d and stored %d instead of %ld", r, v, (long)data.size() - (long)p);
            break;
        }
        case F_FAR: {
            off_t far = (off_t)5 << 30;
            CHECK(f.lseek(far + o.n, SEEK_SET) == far + o.n, "a seek beyond 2 GB returned a wrong offset");
            CHECK(f.lseek((off_t)p, SEEK_SET) == (off_t)p, "the seek back failed");
            break;
        }
        }
        vs_progress();
    }
    for (auto &f : h)
    {
        CHECK(f.close() == 0, "close failed");
        char x;
        errno = 0;
        int r = f.read(&x, 1);
        CHECK(r == -1 && errno == EBADF, "reading after closing returned %d", r);
    }
}

void run()
{
    signal(SIGPIPE, SIG_IGN);
    first_fd = dup(0);
    close(first_fd);
    fault_seed = (uint64_t)P.seed * 0x9E3779B97F4A7C15ull;
    p_intr = P.intr;
    p_again = P.again;
    p_short = P.shrt;
    p_late = P.late;
    armed = true;
    Actors as;
    size_t salt = 1;
    for (auto &l : P.links)
    {
        salt += 40;
        switch (l.kind)
        {
        case L_FILE:
            as.spawn(l.a, [&l, salt] { run_file(l, salt); });
            break;
        case L_PIPE:
        case L_PAIR: start_pair(as, l, salt); break;
        case L_TCP:
        case L_UNIX: start_net(as, l, salt); break;
        case L_SEQ:
        case L_DGRAM:
        case L_UDP: start_dgram(as, l, salt); break;
        case L_REFUSED: start_refused(as, l); break;
        default: start_client(as, l, salt);
        }
        label(lnames[l.kind]);
    }
    as.join();
    armed = false;
    if (faults_made) label("calls interfered with");
    if (moved >= 3) nontrivial();
}
}

const Property property = {
    "C24",
    "1-3 links (file, pipe, socket pair, tcp, unix, seqpacket, datagram, udp, refused, client class) with generated transfers through every call, and interrupted, empty and short calls in between; compared with the bytes "
    "and results POSIX defines; non-trivial = at least three transfers",
    generate, render, run, nullptr, 10000, 100000};
