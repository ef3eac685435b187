// Message passing model.  Processes take turns whenever one has to wait.  Sends never block (buffered or not, a correct program may
// not rely on it: a rendezvous variant is obtained from the order of waits, which the model checks separately).
#include <mpi.h>
#include <cstring>
#include "vtmpi.h"
namespace vtmpi {
struct Msg {
    int src, dst, tag, cls;
    long n;
    char* data;
};
struct Coll {
    const char* kind;
    int cls, root;
    long op;
    long n;
    char* data;
    long* counts;
};
static const int MAXR = 4, MAXM = 4000, MAXC = 400, MAXQ = 4000;
static Msg msgs[MAXM];
static int nMsgs = 0;
static bool consumed[MAXM];
static Coll coll[MAXC][MAXR];
static bool collDone[MAXC][MAXR];
static int size_ = 1, rank_ = 0, order_ = 0;
static int curColl[MAXR];
struct Req {
    int kind;  // 0 free, 1 send, 2 receive
    void* buf;
    long n;
    int peer, tag, cls;
    int msg, owner;
};
static Req reqs[MAXQ];
static int nReq = 0;
static MPI_User_function* userOps[32];
static int nOps = 0;
static bool progress;

int rank() { return rank_; }
// at the end of the program
static void finished(void*) {
    for (int i = 0; i < nReq; ++i)
        if (reqs[i].kind && reqs[i].owner == rank_) vt_misuse("a process ends with a communication request that was never waited for");
    for (int i = 0; i < nMsgs; ++i)
        if (msgs[i].dst == rank_ && !consumed[i]) vt_misuse("a process ends without receiving a message that was sent to it");
}
void run(const char* label, int size, int order, void (*f)(void*), void* ctx) {
    size_ = size;
    order_ = order & 1;
    nMsgs = nReq = 0;
    for (int r = 0; r < size; ++r) curColl[r] = 0;
    for (int i = 0; i < MAXC; ++i)
        for (int r = 0; r < size; ++r) collDone[i][r] = false;
    vt_processes();
    int state[MAXR];
    for (int r = 0; r < MAXR; ++r) state[r] = 2;
    bool failed = false;
    for (bool all = false; !all && !failed;) {
        progress = false;
        all = true;
        for (int r = 0; r < size && !failed; ++r) {
            if (state[r] == 1) continue;
            rank_ = r;
            state[r] = vt_process(label, r, f, ctx);
            if (state[r] == 0) failed = true;
            if (state[r] != 1) all = false;
            if (state[r] == 1) progress = true;
        }
        if (!progress) break;
    }
    vt_processes();
    if (!failed)
        for (int r = 0; r < size && !failed; ++r) {
            if (state[r] != 1) continue;
            rank_ = r;
            if (vt_process(label, r, finished, nullptr) == 0) failed = true;
        }
    for (int r = 0; r < size; ++r) vt_emit_i("process", size, r, order, failed ? 0 : state[r]);
    rank_ = 0;
    size_ = 1;
}
static long sizeOf(MPI_Datatype t) { return t % 1000; }
static char* copy(const void* p, long n) {
    char* d = new char[n ? n : 1];
    if (n) memcpy(d, p, n);
    return d;
}
static int newReq(int kind, void* buf, long n, int peer, int tag, int cls, int msg) {
    if (nReq >= MAXQ - 1) vt_misuse("too many requests");
    reqs[nReq] = Req{kind, buf, n, peer, tag, cls, msg, rank_};
    return ++nReq;
}
static int doSend(const void* buf, long n, int cls, int dst, int tag) {
    if (dst < 0 || dst >= size_) vt_misuse("message to a process that does not exist");
    if (nMsgs >= MAXM) vt_misuse("too many messages");
    int m = nMsgs++;
    msgs[m] = Msg{rank_, dst, tag, cls, n, copy(buf, n)};
    consumed[m] = false;
    progress = true;
    return m;
}
// the message a receive takes: the first unconsumed one of the given sender (messages of one sender keep their order), of
// the lowest or highest sender for a wildcard
static int match(int src, int tag) {
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= size_)) vt_misuse("receive from a process that does not exist");
    for (;;) {
        int best = -1;
        for (int i = 0; i < nMsgs; ++i) {
            if (msgs[i].dst != rank_ || consumed[i] || (tag != MPI_ANY_TAG && msgs[i].tag != tag) || (src != MPI_ANY_SOURCE && msgs[i].src != src)) continue;
            if (best < 0 || (order_ == 0 ? msgs[i].src < msgs[best].src : msgs[i].src > msgs[best].src)) best = i;
        }
        if (best >= 0) return best;
        vt_block();
    }
}
static void take(int m, void* buf, long n, int cls) {
    if (msgs[m].n > n) vt_misuse("a message is longer than the buffer that receives it");
    if (msgs[m].cls != cls && msgs[m].n) vt_misuse("a message is received as another data type than it was sent");
    if (msgs[m].n) memcpy(buf, msgs[m].data, msgs[m].n);
    consumed[m] = true;
    progress = true;
}
static void wait(long* r) {
    long k = *r;
    if (k == MPI_REQUEST_NULL) return;
    if (k < 1 || k > nReq || !reqs[k - 1].kind) vt_misuse("wait for an invalid request");
    Req& q = reqs[k - 1];
    if (q.kind == 1 && q.n) {  // the buffer must still be there, unchanged
        char* now = copy(q.buf, q.n);
        for (long i = 0; q.cls != 2008 && q.cls != 3016 && i < q.n; ++i)
            if (now[i] != msgs[q.msg].data[i]) vt_misuse("the buffer of a pending send was changed before the wait");
        delete[] now;
    } else if (q.kind == 2) {
        int m = match(q.peer, q.tag);
        take(m, q.buf, q.n, q.cls);
    }
    q.kind = 0;
    *r = MPI_REQUEST_NULL;
}
// one collective: stores this process' contribution, blocks until all are there
static Coll* collective(const char* kind, int cls, long op, int root, const void* p, long n, const long* counts = nullptr) {
    int k = curColl[rank_]++;
    if (k >= MAXC) vt_misuse("too many collectives");
    if (!collDone[k][rank_]) {
        Coll& c = coll[k][rank_];
        c.kind = kind;
        c.cls = cls;
        c.op = op;
        c.root = root;
        c.n = n;
        c.data = copy(p, n);
        c.counts = nullptr;
        if (counts) {
            c.counts = new long[2 * size_];
            for (int i = 0; i < 2 * size_; ++i) c.counts[i] = counts[i];
        }
        collDone[k][rank_] = true;
        progress = true;
    }
    for (int r = 0; r < size_; ++r) {
        while (!collDone[k][r]) vt_block();
        if (strcmp(coll[k][r].kind, kind)) vt_misuse("processes call different collectives at the same point");
        if (coll[k][r].cls != cls || coll[k][r].op != op || coll[k][r].root != root) vt_misuse("processes disagree on the arguments of a collective");
    }
    return coll[k];
}
template <class T>
static void apply(T* a, const T* b, long n, long op) {
    for (long i = 0; i < n; ++i) switch (op) {
            case MPI_MAX: a[i] = a[i] < b[i] ? b[i] : a[i]; break;
            case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
            case MPI_SUM: a[i] = a[i] + b[i]; break;
            case MPI_PROD: a[i] = a[i] * b[i]; break;
            case MPI_LOR: a[i] = a[i] != 0 || b[i] != 0; break;
            case MPI_LAND: a[i] = a[i] != 0 && b[i] != 0; break;
            default: vt_misuse("unknown reduction");
        }
}
static void combine(void* a, void* b, long bytes, MPI_Datatype t, long op) {
    if (op >= 100) {
        int n = bytes / sizeOf(t);
        userOps[op - 100](b, a, &n, &t);
        return;
    }
    switch (t) {
        case 1001: return apply((unsigned char*)a, (unsigned char*)b, bytes, op);
        case 1004: return apply((int*)a, (int*)b, bytes / 4, op);
        case 1008: return apply((long*)a, (long*)b, bytes / 8, op);
        case 2008: return apply((double*)a, (double*)b, bytes / 8, op);
        case 3016:
            if (op != MPI_SUM) vt_misuse("reduction of complex numbers");
            return apply((double*)a, (double*)b, bytes / 8, op);
        default: vt_misuse("reduction of an unknown data type");
    }
}
static void reduceInto(void* out, Coll* c, int upto, MPI_Datatype t, long op) {
    for (int r = 0; r < upto; ++r) {
        if (c[r].n != c[0].n) vt_misuse("processes reduce different numbers of values");
        if (r == 0)
            memcpy(out, c[0].data, c[0].n);
        else
            combine(out, c[r].data, c[0].n, t, op);
    }
}
}  // namespace vtmpi
using namespace vtmpi;
extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Initialized(int* f) { return *f = 1, 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { return *r = rank_, 0; }
int MPI_Comm_size(MPI_Comm, int* r) { return *r = size_, 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { return *d = c, 0; }
int MPI_Comm_free(MPI_Comm*) { return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Type_match_size(int c, int s, MPI_Datatype* t) { return *t = c * 1000 + s, 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { return *s = sizeOf(t), 0; }
int MPI_Op_create(MPI_User_function* f, int, MPI_Op* o) {
    int k = 0;
    while (k < nOps && userOps[k] != f) ++k;
    if (k == nOps) userOps[nOps++] = f;
    *o = 100 + k;
    return 0;
}
int MPI_Op_free(MPI_Op*) { return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm, MPI_Request* r) {
    int m = doSend(b, n * sizeOf(t), t, to, tag);
    *r = newReq(1, const_cast<void*>(b), n * sizeOf(t), to, tag, t, m);
    return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { return doSend(b, n * sizeOf(t), t, to, tag), 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Request* r) {
    *r = newReq(2, b, n * sizeOf(t), from, tag, t, -1);
    return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Status* s) {
    int m = match(from, tag);
    take(m, b, n * sizeOf(t), t);
    if (s) {
        s->MPI_SOURCE = msgs[m].src;
        s->MPI_TAG = msgs[m].tag;
        s->bytes = msgs[m].n;
    }
    return 0;
}
int MPI_Probe(int from, int tag, MPI_Comm, MPI_Status* s) {
    int m = match(from, tag);
    if (s) {
        s->MPI_SOURCE = msgs[m].src;
        s->MPI_TAG = msgs[m].tag;
        s->bytes = msgs[m].n;
    }
    return 0;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { return *n = s->bytes / sizeOf(t), 0; }
int MPI_Wait(MPI_Request* r, MPI_Status*) { return vtmpi::wait(r), 0; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status*) {
    for (int i = 0; i < n; ++i) vtmpi::wait(r + i);
    return 0;
}
int MPI_Barrier(MPI_Comm) { return collective("barrier", 0, 0, 0, nullptr, 0), 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) {
    Coll* c = collective("bcast", t, 0, root, b, rank_ == root ? n * sizeOf(t) : 0);
    if (c[root].n != n * sizeOf(t)) vt_misuse("processes broadcast different numbers of values");
    if (rank_ != root && n) memcpy(b, c[root].data, c[root].n);
    return 0;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
    Coll* c = collective("reduce", t, op, root, in == MPI_IN_PLACE ? out : in, n * sizeOf(t));
    if (rank_ == root) reduceInto(out, c, size_, t, op);
    return 0;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    Coll* c = collective("allreduce", t, op, 0, in == MPI_IN_PLACE ? out : in, n * sizeOf(t));
    reduceInto(out, c, size_, t, op);
    return 0;
}
int MPI_Scan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    Coll* c = collective("scan", t, op, 0, in == MPI_IN_PLACE ? out : in, n * sizeOf(t));
    reduceInto(out, c, rank_ + 1, t, op);
    return 0;
}
int MPI_Exscan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    Coll* c = collective("exscan", t, op, 0, in == MPI_IN_PLACE ? out : in, n * sizeOf(t));
    reduceInto(out, c, rank_, t, op);
    return 0;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int m, MPI_Datatype u, MPI_Comm) {
    long w = m * sizeOf(u);
    bool inplace = in == MPI_IN_PLACE;
    Coll* c = collective("allgather", u, 0, 0, inplace ? (char*)out + rank_ * w : in, inplace ? w : n * sizeOf(t));
    for (int r = 0; r < size_; ++r) {
        if (c[r].n != w) vt_misuse("processes gather different numbers of values");
        if (w) memcpy((char*)out + r * w, c[r].data, w);
    }
    return 0;
}
int MPI_Allgatherv(const void* in, int n, MPI_Datatype t, void* out, const int* cnt, const int* dis, MPI_Datatype u, MPI_Comm) {
    long s = sizeOf(u);
    bool inplace = in == MPI_IN_PLACE;
    Coll* c = collective("allgatherv", u, 0, 0, inplace ? (char*)out + dis[rank_] * s : in, inplace ? cnt[rank_] * s : n * sizeOf(t));
    for (int r = 0; r < size_; ++r) {
        if (c[r].n != cnt[r] * s) vt_misuse("a process contributes another number of values than the others expect");
        if (c[r].n) memcpy((char*)out + dis[r] * s, c[r].data, c[r].n);
    }
    return 0;
}
int MPI_Alltoall(const void* in, int n, MPI_Datatype t, void* out, int m, MPI_Datatype u, MPI_Comm) {
    long w = n * sizeOf(t);
    Coll* c = collective("alltoall", t, 0, 0, in, w * size_);
    for (int r = 0; r < size_; ++r) {
        if (c[r].n != w * size_ || m * sizeOf(u) != w) vt_misuse("processes exchange different numbers of values");
        if (w) memcpy((char*)out + r * w, c[r].data + rank_ * w, w);
    }
    return 0;
}
int MPI_Alltoallv(const void* in, const int* sc, const int* sd, MPI_Datatype t, void* out, const int* rc, const int* rd, MPI_Datatype u, MPI_Comm) {
    long s = sizeOf(t), top = 0, cnt[2 * MAXR];
    for (int r = 0; r < size_; ++r) {
        cnt[2 * r] = sc[r];
        cnt[2 * r + 1] = sd[r];
        if (sc[r] && sd[r] + sc[r] > top) top = sd[r] + sc[r];
    }
    Coll* c = collective("alltoallv", t, 0, 0, in, top * s, cnt);
    for (int r = 0; r < size_; ++r) {
        long n = c[r].counts[2 * rank_], d = c[r].counts[2 * rank_ + 1];
        if (n != rc[r] || sizeOf(u) != s) vt_misuse("a process sends another number of values than the receiver expects");
        if (n) memcpy((char*)out + rd[r] * s, c[r].data + d * s, n * s);
    }
    return 0;
}
}
