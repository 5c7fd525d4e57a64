// One rank's Scalar, compiled once per rank with its own class name so that function-local statics are per rank.
#include "common.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define F(x) CAT(x, RANK)
int fIndex = -1; // one per rank
static Scalar *f;
void *F(gr_make)(size_t n, size_t lz, int dbl, int type, int ng, int lowmem) { f = mkScalar(mkCosmos(), n, lz, dbl, (FieldType)type, lowmem, ng); return f; }
void *F(gr_ptr)(int w) { switch (w) { case 0: return f->mCpu(); case 1: return f->vCpu(); case 2: return f->m2Cpu(); case 3: return f->mStart(); case 4: return f->vStart(); case 5: return f->m2Start(); case 6: return f->mBackGhost(); case 7: return f->mFrontGhost(); case 8: return f->vBackGhost(); case 9: return f->vFrontGhost(); case 10: return f->m2BackGhost(); case 11: return f->m2FrontGhost(); } return 0; }
void F(gr_send)(int fld, int op, int how, int ng) { if (how == 0) f->sendGhosts((FieldIndex)fld, (CommOperation)op); else f->sendGhosts2((FieldIndex)fld, (CommOperation)op, ng); }
void F(gr_exch)(int fld) { f->exchangeGhosts((FieldIndex)fld); }
void F(gr_gen)(int op, size_t count, void *a, void *b, void *c, void *d) { f->sendGeneral((CommOperation)op, count, MPI_BYTE, a, b, c, d); }
size_t F(gr_size)(int w) { return w == 0 ? f->DataSize() : w == 1 ? f->Size() : f->Surf(); }
