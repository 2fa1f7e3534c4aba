// Programs: what the simulated application does, as data.
#pragma once
#include "sim.h"
#include <memory>
namespace sim {
#define STEP_KINDS(X) \
  X(INIT) X(FINI) X(MALLOC) X(FREE) X(XFER) X(WAIT) X(TEST) X(WAITPROC) X(WAITALL) X(FENCE) X(ALLFENCE) X(BARRIER) \
  X(LSTORE) X(LLOAD) X(RMW) X(MXCREATE) X(MXDESTROY) X(CS) X(GCREATE) X(GFREE) X(GOP) X(SEL) X(BCAST) X(MSG) X(FANIN) \
  X(POLL) X(BAD) X(MSGBAR) X(GBAR) X(PROGRESS) X(SETDEF) X(IDLE) X(MLOCAL) X(TREE) X(FATAL)
enum Kind {
#define X(n) S_##n,
  STEP_KINDS(X)
#undef X
  S_COUNT };
extern const char *kind_name[S_COUNT];

struct Step { int k = 0; int rank = -1; int thr = 0; std::vector<long> p; };
struct Program {
  EnvCfg env; std::map<std::string, std::string> vars;   // simulator knobs; ARMCI_ variables
  std::string profile; int nthreads = 1; int lc = 0;     // lc: location consistency promised
  int expect_stop = 0;                                   // the last step must stop the program
  int alloc_mode = 0;                                    // allocation failures are injected: stopping is allowed
  int rreq_limit = 0;
  std::vector<Step> steps;
};

// ---- transfers
enum { OP_PUT = 0, OP_GET = 1, OP_ACC = 2 };
enum { SH_CONTIG = 0, SH_STRIDED = 1, SH_VECTOR = 2, SH_VALUE = 3 };
enum { MD_BLOCK = 0, MD_NB = 1, MD_IMPL = 2, MD_FLAG = 3 };
// header positions in Step::p of a transfer
enum { X_OP, X_SHAPE, X_MODE, X_HDL, X_UID, X_TYPE, X_SCALE, X_RID, X_TGT, X_ROFF, X_LKIND, X_LRID, X_LOFF, X_FRID, X_FOFF, X_FVAL, X_AGG, X_HEAD };
// tail: contig: bytes | strided: levels count[0..L] sstride[0..L-1] dstride[0..L-1] | value: type | vector: niov { bytes n {rid roff loff}*n }
struct Seg3 { long rid, roff, loff, len; };
struct Xfer { std::vector<Seg3> segs; long span = 0; };
bool expand(const Step &s, Xfer &x);
extern const int tsize[6];                               // accumulate types: int long float double complex dcomplex
inline long hphase(long rid, int ht) { return ht >= 4 && rid % 2 ? tsize[ht] / 2 : 0; }   // complex elements of some allocations are aligned to half their size
extern const int vsize[4];                               // value types: int long float double
extern const int gsize[5];                               // message types

struct GroupM { std::vector<int> mem; bool alive = true; bool coll = true; std::vector<int> parent; };   // members as absolute ids
struct Cell { u8 mode = 0; short who = -1; u8 pend = 0; u8 rbusy = 0; u8 wbusy = 0; u8 unk = 0; };
enum { CM_NONE, CM_W, CM_R, CM_A, CM_V, CM_L, CM_F };
struct Share { std::vector<u8> b; std::vector<Cell> c; };
struct RegionM { long gid; int htype; bool alive = true; int api = 0; std::vector<Share> sh; };          // indexed by absolute id; empty when not a member
struct ByteChk { long rid; int mem; long off; u8 v; };
struct ElemChk { long rid; int mem; long off; int type; std::vector<u8> init; std::vector<std::vector<u8>> own, oth; };
struct CellKey { long rid; int mem; long off; bool operator<(const CellKey &o) const { return rid != o.rid ? rid < o.rid : mem != o.mem ? mem < o.mem : off < o.off; } };
struct Snap { std::map<long, std::vector<std::vector<u8>>> val, mask; };
struct VCell { int width = 4; bool addsonly = true, positive = true; std::set<int> agents; long init = 0; bool unk_init = false; std::vector<int> steps; };
struct Expect {
  std::vector<u8> data, img, mask;       // value of a get / of local data
  std::vector<ByteChk> bytes; std::vector<ElemChk> elems;
  std::shared_ptr<Snap> snap;
  std::map<CellKey, VCell> vcells;       // judged at this synchronisation point
  std::vector<std::pair<CellKey, int>> mono; // fence: counter cells with own adds
  long val = 0; bool has_val = false;    // rmw result when deterministic
  std::vector<std::vector<u8>> parts, outs; std::vector<int> who; bool any_of = false;
  std::vector<int> covers;               // steps whose completion this step waits for
};
struct HandleM { bool active = false, agg = false; std::vector<int> ops; };
struct MutexM { long gid; std::vector<int> counts; bool alive = true; };   // world set: id 0
struct AccRec { int agent; CellKey k; int type; std::vector<u8> v; int step; };

struct Model {
  const Program *P; bool live = false; std::vector<int> members; int nested = 1; bool stopped = false, fatal = false;
  std::map<long, GroupM> groups; std::map<long, RegionM> regions; std::map<long, MutexM> mutexes;
  std::map<std::pair<int, int>, HandleM> handles;       // (agent, handle)
  std::map<int, std::vector<int>> implicit;             // agent -> steps
  std::map<int, std::vector<std::pair<CellKey, u8>>> busy;   // step -> cells (kind 1 read-busy, 2 write-busy)
  std::map<int, std::vector<CellKey>> pendcells;        // agent -> cells with an unfenced write
  std::map<CellKey, VCell> vc; std::map<CellKey, std::vector<u8>> ainit; std::vector<AccRec> accs;
  std::vector<std::pair<int, int>> openfences;          // (step index, agent): acc element checks pending
  std::map<int, Step> nbsteps; std::map<long, Step> flagsteps; std::map<long, int> flagidx;
  std::map<int, std::map<long, long>> mxheld;           // nothing held across steps; kept for clarity
  std::map<int, Expect> *E = nullptr; int idx = 0; long deflt = 0;
  std::string why;
  std::set<std::pair<long, long>> fanins;               // (receiver, tag) received from anybody in this phase
  std::set<long> freedrids; std::map<long, RegionM> deadregions;
  void begin(const Program *p, std::map<int, Expect> *e);
  bool admit(const Step &s, int i);                     // legal here?  then apply
  int abs_of(int simrank) const { for (size_t i = 0; i < members.size(); i++) if (members[i] == simrank) return (int)i; return -1; }
  Cell *cell(long rid, int mem, long off);
  bool member(long rid, int me);                        // is the process part of the group the region was allocated over?
  bool no(const char *w) { why = w; return false; }
  bool can_read(const CellKey &k, int agent, bool blocking), can_write(const CellKey &k, int agent, bool blocking), can_acc(const CellKey &k, int agent, bool blocking, int type);
  void do_read(const CellKey &k, int agent), do_write(const CellKey &k, int agent, int pend);
  void complete(int step); void fence(int agent, int tgt, Expect &e, int i); void close_phase(Expect &e, int i), finish() { Expect e; close_phase(e, 0); } void snapshot(Expect &e);
  bool xfer(const Step &s, int i); bool outstanding() const;
};
// data carried by an operation
u8 data_byte(long uid, long i);
void gen_data(long uid, int htype, long roff, u8 *out, long n, long streampos);
void acc_value(long uid, int type, long i, u8 *out);
void scale_value(int type, int code, u8 *out); bool scaled_add(int type, int code, u8 *tgt, const u8 *src, bool exact = true);
std::string prog_text(const Program &p); bool prog_parse(const std::string &t, Program &p); std::string step_text(const Step &s);

// harness

bool generate(const std::string &profile, const std::string &variant, u64 seed, Program &p);
extern const char *const sim_variant; extern const int cov_points;
}
