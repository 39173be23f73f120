// Simulator runtime. Compiled without instrumentation.
//
// One simulated execution = one child process in which every source of nondeterminism is owned here:
// heap (own allocator with failure injection, bounds and lifetime checking), thread scheduling (real
// threads, exactly one released at a time, switched only at instrumented memory accesses and at
// synchronisation calls), rand/srand/time/clock_gettime, files below /simdisk/, standard streams,
// locale, and the prior content of heap and stack.
#include "rt.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <link.h>
#include <locale>
#include <clocale>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

extern "C" char __data_start, _end, __executable_start, etext;

namespace sim {

Stats g_stats;

// ------------------------------------------------------------------ shared memory layout
struct RecShm
{
	int prog, idx, op, st, retry;
	uint64_t steps, allocs, stack;
	int faults;
	long err, warn;
	int outB, errB;
	int fmtChanged, stdFmtChanged, streamState;
	uint32_t tokThread, tokBeg, tokEnd;
	uint32_t prBeg, prEnd;       // printed text
	char what[160];
};
constexpr int MAXREC = 6000;
constexpr size_t TOKMAX = 6u<<20, TXTMAX = 1u<<20, FILEMAX = 6u<<20;
constexpr int MAXTRACE = 2000, MAXRACE = 64;
struct RaceShm { int a, b; int heap; char where[64]; };
struct Shm
{
	int  done;
	int  curThread;
	int  curOp[4];
	char death[200];
	char memerr[300];
	int  nrec, nrace, ntrace;
	uint64_t liveEnd, liveBytes, steps, accesses, allocs, faults, switches;
	long errTotal, warnTotal;
	int ioFired[IO_NKIND], ioCalls[IO_NKIND];
	uint32_t outLen, errLen, fileLen;
	RaceShm race[MAXRACE];
	Preempt trace[MAXTRACE];
	RecShm rec[MAXREC];
	char outTxt[TXTMAX], errTxt[TXTMAX];
	char files[FILEMAX];
	unsigned char tok[4][TOKMAX];
};
static Shm* S = nullptr;

// ------------------------------------------------------------------ thread contexts
struct ThreadCtx
{
	int  id = 0;
	bool inOp = false;
	int  pause = 0;
	uint64_t steps=0, acc=0, allocs=0;    // steps, allocs: of the current operation
	int  fault=0, fmode=0, faultsFired=0;
	uint32_t tokLen=0;
	int  op=-1;
	RecShm* rec=nullptr;
	uint32_t vc[4]={0,0,0,0};
	sem_t sem;
	bool finished=false, started=false;
	const void* blockedOn=nullptr;
	const Preempt* pre[512]; int npre=0, ipre=0;
	uintptr_t stackLo=0, stackHi=0;
	uintptr_t opFrame=0; uint64_t maxStack=0; // stack pointer at the start of the current operation, space used since
};
static thread_local ThreadCtx* T = nullptr;
static ThreadCtx g_th[4];

static struct Glob
{
	const Plan* plan=nullptr;
	const Universe* uni=nullptr; const Universe* second=nullptr;
	void* world=nullptr;
	bool on=false;           // simulated process running
	bool mt=false;           // threads running
	bool search=false;
	Rng  rng{1};
	long countdown=0, hotStep=1;
	uintptr_t hotTop=0;
	bool reversed=false;
	int  nth=0;
	uint64_t budget=0, stack=0;
	uint64_t rndState=1;
	int64_t  clock=0;
	int nswitch=0;
	bool ioOff=false;
} G;

// ------------------------------------------------------------------ raw output / death
static void die( const char* why )
{
	if( S && !S->death[0] ) { strncpy( S->death, why, sizeof(S->death)-1 ); }
	_exit( 77 );
}

// ------------------------------------------------------------------ arena
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t ARENA_SIZE = 512u<<20;
static const uintptr_t SHADOW = 0x110000000000ull;          // 1 byte per 8: number of valid bytes; 0xFD freed
static const uintptr_t RSH    = 0x120000000000ull;          // race cells of the arena
static const uintptr_t RSHD   = 0x130000000000ull;          // race cells of static data
struct Access { uint32_t clk; uint8_t mask; uint8_t pad; uint16_t op; };
struct Cell { Access a[4][2]; };
static size_t g_top = 0;
static uint64_t g_nalloc = 0, g_live = 0, g_liveBytes = 0;
struct BlockHdr { uint64_t magic; uint64_t size; uint64_t noCount; uint64_t pad; };
static const uint64_t MAGIC = 0x5157abcdef012345ull;

static uintptr_t g_tx2lo=0, g_tx2hi=0, g_dataLo, g_dataHi;
static uintptr_t g_exlo, g_exhi;

static inline uint8_t* sh( uintptr_t a ) { return (uint8_t*)( SHADOW + ((a-ARENA)>>3) ); }

static void memError( const char* kind, uintptr_t a, unsigned n )
{
	ThreadCtx* t = T;
	if( !S->memerr[0] )
		snprintf( S->memerr, sizeof(S->memerr), "%s of %u bytes at heap+0x%lx", kind, n, (unsigned long)(a-ARENA) );
	if( t ) S->curThread = t->id;
	die( "memory error" );
}

static void checkRange( uintptr_t a, size_t n, bool w )
{
	if( !n ) return;
	uintptr_t e = a+n;
	if( e > ARENA + ARENA_SIZE ) memError( w?"invalid write":"invalid read", a, (unsigned)n );
	for( uintptr_t g = a & ~7ull; g < e; g += 8 )
	{
		uint8_t v = *sh(g);
		if( v == 8 ) continue;
		if( v == 0xFD ) memError( w?"write after free":"read after free", a, (unsigned)n );
		uintptr_t last = (e-1 < g+7) ? e-1 : g+7;
		if( v == 0 || (last - g) >= v ) memError( w?"out-of-bounds write":"out-of-bounds read", a, (unsigned)n );
	}
}

static void* arenaAlloc( size_t n, size_t align, void* caller )
{
	if( align < 16 ) align = 16;
	size_t p = g_top + sizeof(BlockHdr) + 16;
	p = (p + align-1) & ~(align-1);
	if( p + n + 64 > ARENA_SIZE ) die( "heap budget exceeded" );
	g_top = (p + n + 15) & ~15ull;
	uintptr_t a = ARENA + p;
	BlockHdr* h = (BlockHdr*)( a - sizeof(BlockHdr) );
	bool third = (uintptr_t)caller >= g_tx2lo && (uintptr_t)caller < g_tx2hi;
	h->magic = MAGIC; h->size = n; h->noCount = third; h->pad=0;
	size_t full = n>>3;
	uint8_t* s = sh( a );
	for( size_t i=0; i<full; i++ ) s[i] = 8;
	if( n & 7 ) s[full] = (uint8_t)(n & 7);
	// content of fresh memory
	uint64_t f = G.plan ? G.plan->fill : 0;
	if( f )
	{
		uint64_t v = f==1 ? 0xFFFFFFFFFFFFFFFFull : mix( f, g_nalloc );
		uint64_t* q = (uint64_t*)a;
		for( size_t i=0; i<(n+7)/8; i++ ) { q[i] = v; v = v*6364136223846793005ull + 1; if( f==1 ) v = ~0ull; }
	}
	g_nalloc++;
	if( !third ) { g_live++; g_liveBytes += n; }
	return (void*)a;
}

static inline bool inArena( const void* p ) { return (uintptr_t)p - ARENA < ARENA_SIZE; }

static void arenaFree( void* p )
{
	uintptr_t a = (uintptr_t)p;
	BlockHdr* h = (BlockHdr*)( a - sizeof(BlockHdr) );
	if( (a & 15) || h->magic != MAGIC )
		memError( *sh(a)==0xFD || (h->magic==~MAGIC) ? "double free" : "invalid free", a, 0 );
	h->magic = ~MAGIC;
	size_t n = h->size;
	uint8_t* s = sh( a );
	for( size_t i=0; i<(n+7)/8; i++ ) s[i] = 0xFD;
	for( size_t i=0; i<(n+7)/8; i++ ) ((uint64_t*)a)[i] = 0xDDDDDDDDDDDDDDDDull ^ (G.plan?G.plan->fill:0);
	if( !h->noCount ) { g_live--; g_liveBytes -= n; }
}

Pause::Pause()  { if( T ) T->pause++; }
Pause::~Pause() { if( T ) T->pause--; }

static void* simNew( size_t n, size_t align, bool nothrow, void* caller )
{
	ThreadCtx* t = T;
	if( !G.on || !t || t->pause )
	{
		void* p = align>16 ? aligned_alloc( align, (n+align-1)/align*align ) : malloc( n ? n : 1 );
		if( !p && !nothrow ) throw std::bad_alloc();
		return p;
	}
	if( t->inOp && !( (uintptr_t)caller >= g_tx2lo && (uintptr_t)caller < g_tx2hi ) )
	{
		t->allocs++;
		S->allocs++;
		if( t->fault > 0 && ( t->allocs == (uint64_t)t->fault || ( t->fmode==1 && t->allocs > (uint64_t)t->fault ) ) )
		{
			t->faultsFired++;
			S->faults++;
			if( nothrow ) return nullptr;
			throw std::bad_alloc();
		}
		if( n > (128u<<20) )      // no machine memory for that
		{
			if( nothrow ) return nullptr;
			throw std::bad_alloc();
		}
	}
	return arenaAlloc( n, align, caller );
}
static void simDelete( void* p )
{
	if( !p ) return;
	if( inArena(p) )
		arenaFree( p );
	else
		free( p );
}

// ------------------------------------------------------------------ scheduler
static void switchTo( ThreadCtx* me, int to, bool record )
{
	if( record )
	{
		if( S->ntrace < MAXTRACE ) S->trace[S->ntrace++] = Preempt{ me->id, me->acc, to };
		S->switches++;
	}
	S->curThread = to;
	sem_post( &g_th[to].sem );
	while( sem_wait( &me->sem ) == -1 && errno == EINTR ) {}
}
static int nextRunnable( int from )
{
	for( int k=1; k<=3; k++ )
	{
		int u = from + k; while( u > 3 ) u -= 3;
		if( u==from ) continue;
		if( g_th[u].started && !g_th[u].finished && !g_th[u].blockedOn ) return u;
	}
	return 0;
}
static void resetCountdown()
{
	G.countdown = 1 + (long)G.rng.below( 2*(uint64_t)G.plan->gap );
}
// hot: an access to static data, or to memory that existed before the threads were started, where threads may meet
static void schedPoint( ThreadCtx* t, bool hot=true )
{
	t->acc++;
	if( G.search )
	{
		G.countdown -= hot ? G.hotStep : 1;
		if( G.countdown > 0 ) return;
		resetCountdown();
		if( G.nswitch >= 400 ) return;
		int cand[3], n=0;
		for( int u=1; u<=3; u++ )
			if( u != t->id && g_th[u].started && !g_th[u].finished && !g_th[u].blockedOn ) cand[n++]=u;
		if( !n ) return;
		G.nswitch++;
		switchTo( t, cand[ G.rng.below(n) ], true );
	}
	else
	{
		while( t->ipre < t->npre && t->pre[t->ipre]->at < t->acc ) t->ipre++;
		if( t->ipre < t->npre && t->pre[t->ipre]->at == t->acc )
		{
			int to = t->pre[t->ipre++]->to;
			if( to>=1 && to<=3 && to!=t->id && g_th[to].started && !g_th[to].finished && !g_th[to].blockedOn )
				switchTo( t, to, true );
		}
	}
}
static void blockOn( ThreadCtx* t, const void* what )
{
	t->blockedOn = what;
	int u = nextRunnable( t->id );
	if( !u ) { S->curThread = t->id; die( "deadlock" ); }
	switchTo( t, u, false );
}
static void wakeAll( const void* what )
{
	for( int u=1; u<=3; u++ ) if( g_th[u].blockedOn == what ) g_th[u].blockedOn = nullptr;
}

// ------------------------------------------------------------------ happens-before (vector clocks)
struct SyncVar { const void* addr; uint32_t vc[4]; };
static SyncVar g_sync[512]; static int g_nsync=0;
static SyncVar* syncVar( const void* a )
{
	for( int i=0; i<g_nsync; i++ ) if( g_sync[i].addr==a ) return &g_sync[i];
	if( g_nsync == 512 ) return &g_sync[511];
	SyncVar* s = &g_sync[g_nsync++]; for( volatile uint32_t& v: s->vc ) v=0; s->addr=a;
	return s;
}
static void hbAcquire( ThreadCtx* t, const void* a )
{
	SyncVar* s = syncVar(a);
	for( int i=0; i<4; i++ ) if( s->vc[i] > t->vc[i] ) t->vc[i] = s->vc[i];
}
static void hbRelease( ThreadCtx* t, const void* a )
{
	SyncVar* s = syncVar(a);
	for( int i=0; i<4; i++ ) if( t->vc[i] > s->vc[i] ) s->vc[i] = t->vc[i];
	t->vc[t->id]++;
}

static void describe( uintptr_t a, bool heap, char* buf, size_t n )
{
	if( heap ) snprintf( buf, n, "heap" );
	else if( getenv( "SIM_DEBUG" ) ) snprintf( buf, n, "static data %lx", (unsigned long)a );
	else       snprintf( buf, n, "static data" );
}

static void raceAccess( ThreadCtx* t, uintptr_t a, unsigned n, bool w, bool heap )
{
	uintptr_t base = heap ? ARENA : g_dataLo, cells = heap ? RSH : RSHD;
	uintptr_t e = a+n;
	for( uintptr_t g = a & ~7ull; g < e; g += 8 )
	{
		Cell* c = (Cell*)cells + ((g-(base&~7ull))>>3);
		unsigned lo = a>g ? (unsigned)(a-g) : 0, hi = e<g+8 ? (unsigned)(e-g) : 8;
		uint8_t m = (uint8_t)( ((1u<<hi)-1) & ~((1u<<lo)-1) );
		for( int u=1; u<=3; u++ )
		{
			if( u == t->id ) continue;
			for( int k=0; k<2; k++ )
			{
				if( !w && !k ) continue;     // read/read
				Access& x = c->a[u][k];
				if( (x.mask & m) && x.clk > t->vc[u] )
				{
					int o1 = t->op, o2 = x.op;
					if( o1 > o2 ) { int z=o1; o1=o2; o2=z; }
					bool known=false;
					for( int i=0; i<S->nrace; i++ ) if( S->race[i].a==o1 && S->race[i].b==o2 && S->race[i].heap==heap ) known=true;
					if( !known && S->nrace < MAXRACE )
					{
						RaceShm& r = S->race[S->nrace++];
						r.a=o1; r.b=o2; r.heap=heap;
						describe( a, heap, r.where, sizeof r.where );
					}
				}
			}
		}
		Access& me = c->a[t->id][w];
		if( me.clk == t->vc[t->id] ) me.mask |= m;
		else { me.clk = t->vc[t->id]; me.mask = m; }
		me.op = (uint16_t)t->op;
	}
}

static uintptr_t g_excl[8][2]; static int g_nexcl=0;

static inline void memAccess( uintptr_t a, unsigned n, bool w )
{
	ThreadCtx* t = T;
	if( !t || !t->inOp || t->pause ) return;
	if( ++t->steps > G.budget ) { S->curThread=t->id; die( "step budget exceeded" ); }
	bool heap;
	if( a - ARENA < ARENA_SIZE )
	{
		heap = true;
		uint8_t v = *sh(a);
		if( !( v==8 && ((a&7)+n)<=8 ) ) checkRange( a, n, w );
	}
	else if( a - g_dataLo < g_dataHi - g_dataLo )
	{
		heap = false;
		for( int i=0; i<g_nexcl; i++ ) if( a >= g_excl[i][0] && a < g_excl[i][1] ) return;
	}
	else
		return;
	S->accesses++;
	if( G.mt && t->id )
	{
		raceAccess( t, a, n, w, heap );
		schedPoint( t, !heap || a < G.hotTop );
	}
}
static inline void rangeAccess( uintptr_t a, size_t n, bool w )
{
	ThreadCtx* t = T;
	if( !t || !t->inOp || t->pause || !n ) return;
	t->steps += n/8;
	while( n > 8 && ( a-ARENA < ARENA_SIZE || a-g_dataLo < g_dataHi-g_dataLo ) )
	{
		unsigned k = 8 - (a&7);
		if( k > n ) k = (unsigned)n;
		memAccess( a, k, w );
		a += k; n -= k;
	}
	memAccess( a, (unsigned)n, w );
}

} // namespace sim
using namespace sim;

// ------------------------------------------------------------------ instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry( void* )
{
	ThreadCtx* t=T;
	if( !t || !t->inOp ) return;
	if( ++t->steps > G.budget ) { S->curThread=t->id; die( "step budget exceeded" ); }
	uint64_t used = t->opFrame - (uintptr_t)__builtin_frame_address(0);
	if( used > t->maxStack && used < (64u<<20) )
	{
		t->maxStack=used;
		if( G.stack && used > G.stack && !t->pause ) { S->curThread=t->id; die( "stack limit exceeded" ); }
	}
}
void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N( void* a )  { memAccess( (uintptr_t)a, N, false ); } \
	void __tsan_write##N( void* a ) { memAccess( (uintptr_t)a, N, true ); } \
	void __tsan_unaligned_read##N( void* a )  { memAccess( (uintptr_t)a, N, false ); } \
	void __tsan_unaligned_write##N( void* a ) { memAccess( (uintptr_t)a, N, true ); } \
	void __tsan_volatile_read##N( void* a )  { memAccess( (uintptr_t)a, N, false ); } \
	void __tsan_volatile_write##N( void* a ) { memAccess( (uintptr_t)a, N, true ); }
RW(1) RW(2) RW(4) RW(8)
#undef RW
#define RW16(P) \
	void __tsan_##P##read16( void* a )  { memAccess( (uintptr_t)a, 8, false ); memAccess( (uintptr_t)a+8, 8, false ); } \
	void __tsan_##P##write16( void* a ) { memAccess( (uintptr_t)a, 8, true ); memAccess( (uintptr_t)a+8, 8, true ); }
RW16() RW16(unaligned_)
#undef RW16
void __tsan_read_range( void* a, size_t n )  { rangeAccess( (uintptr_t)a, n, false ); }
void __tsan_write_range( void* a, size_t n ) { rangeAccess( (uintptr_t)a, n, true ); }
void __tsan_vptr_update( void** a, void* )   { memAccess( (uintptr_t)a, 8, true ); }
void __tsan_vptr_read( void** a )            { memAccess( (uintptr_t)a, 8, false ); }

// atomics: performed for real, and a synchronisation between threads
static void atomPoint( const volatile void* a, int mo, bool ld, bool st )
{
	ThreadCtx* t = T;
	if( !t || !t->inOp || t->pause ) return;
	if( ++t->steps > G.budget ) { S->curThread=t->id; die( "step budget exceeded" ); }
	uintptr_t x = (uintptr_t)a;
	if( x-ARENA < ARENA_SIZE ) checkRange( x, 1, st );
	if( !G.mt || !t->id ) return;
	schedPoint( t );
	if( mo == __ATOMIC_RELAXED ) return;
	if( ld ) hbAcquire( t, (const void*)a );
	if( st ) hbRelease( t, (const void*)a );
}
#define ATOM(BITS,TY) \
	TY __tsan_atomic##BITS##_load( const volatile TY* a, int mo ) { atomPoint( a, mo, true, false ); return __atomic_load_n( a, __ATOMIC_SEQ_CST ); } \
	void __tsan_atomic##BITS##_store( volatile TY* a, TY v, int mo ) { atomPoint( a, mo, false, true ); __atomic_store_n( a, v, __ATOMIC_SEQ_CST ); } \
	TY __tsan_atomic##BITS##_exchange( volatile TY* a, TY v, int mo ) { atomPoint( a, mo, true, true ); return __atomic_exchange_n( a, v, __ATOMIC_SEQ_CST ); } \
	TY __tsan_atomic##BITS##_fetch_add( volatile TY* a, TY v, int mo ) { atomPoint( a, mo, true, true ); return __atomic_fetch_add( a, v, __ATOMIC_SEQ_CST ); } \
	TY __tsan_atomic##BITS##_fetch_sub( volatile TY* a, TY v, int mo ) { atomPoint( a, mo, true, true ); return __atomic_fetch_sub( a, v, __ATOMIC_SEQ_CST ); } \
	TY __tsan_atomic##BITS##_fetch_and( volatile TY* a, TY v, int mo ) { atomPoint( a, mo, true, true ); return __atomic_fetch_and( a, v, __ATOMIC_SEQ_CST ); } \
	TY __tsan_atomic##BITS##_fetch_or ( volatile TY* a, TY v, int mo ) { atomPoint( a, mo, true, true ); return __atomic_fetch_or( a, v, __ATOMIC_SEQ_CST ); } \
	TY __tsan_atomic##BITS##_fetch_xor( volatile TY* a, TY v, int mo ) { atomPoint( a, mo, true, true ); return __atomic_fetch_xor( a, v, __ATOMIC_SEQ_CST ); } \
	int __tsan_atomic##BITS##_compare_exchange_strong( volatile TY* a, TY* c, TY v, int mo, int ) { atomPoint( a, mo, true, true ); return __atomic_compare_exchange_n( a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
	int __tsan_atomic##BITS##_compare_exchange_weak( volatile TY* a, TY* c, TY v, int mo, int ) { atomPoint( a, mo, true, true ); return __atomic_compare_exchange_n( a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); }
ATOM(8,uint8_t) ATOM(16,uint16_t) ATOM(32,uint32_t) ATOM(64,uint64_t)
void __tsan_atomic_thread_fence( int ) { __atomic_thread_fence( __ATOMIC_SEQ_CST ); }
void __tsan_atomic_signal_fence( int ) {}

// ------------------------------------------------------------------ one-time initialisation of statics
int __cxa_guard_acquire( uint64_t* g )
{
	volatile uint8_t* b = (volatile uint8_t*)g;
	ThreadCtx* t = T;
	if( G.mt && t && t->id )
	{
		for(;;)
		{
			if( b[0] ) { hbAcquire( t, g ); return 0; }
			if( !b[1] ) { b[1]=1; hbAcquire( t, g ); return 1; }
			blockOn( t, g );
		}
	}
	for(;;)
	{
		if( __atomic_load_n( &b[0], __ATOMIC_ACQUIRE ) ) return 0;
		uint8_t z=0;
		if( __atomic_compare_exchange_n( &b[1], &z, (uint8_t)1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE ) )
		{
			if( __atomic_load_n( &b[0], __ATOMIC_ACQUIRE ) ) { __atomic_store_n( &b[1], (uint8_t)0, __ATOMIC_RELEASE ); return 0; }
			return 1;
		}
		sched_yield();
	}
}
void __cxa_guard_release( uint64_t* g )
{
	volatile uint8_t* b = (volatile uint8_t*)g;
	ThreadCtx* t = T;
	__atomic_store_n( &b[0], (uint8_t)1, __ATOMIC_RELEASE );
	__atomic_store_n( &b[1], (uint8_t)0, __ATOMIC_RELEASE );
	if( G.mt && t && t->id ) { hbRelease( t, g ); wakeAll( g ); }
}
void __cxa_guard_abort( uint64_t* g )
{
	volatile uint8_t* b = (volatile uint8_t*)g;
	ThreadCtx* t = T;
	__atomic_store_n( &b[1], (uint8_t)0, __ATOMIC_RELEASE );
	if( G.mt && t && t->id ) { hbRelease( t, g ); wakeAll( g ); }
}

// ------------------------------------------------------------------ mutexes
static void* realSym( const char* n ) { return dlsym( RTLD_NEXT, n ); }
struct MutexState { const void* m; int owner; int count; int readers; };
static MutexState g_mx[256]; static int g_nmx=0;
static MutexState* mx( const void* m )
{
	for( int i=0; i<g_nmx; i++ ) if( g_mx[i].m==m ) return &g_mx[i];
	if( g_nmx==256 ) die( "too many mutexes" );
	g_mx[g_nmx] = MutexState{ m, 0, 0, 0 };
	return &g_mx[g_nmx++];
}
static bool simThread() { ThreadCtx* t=T; return G.mt && t && t->id && t->inOp; }
int pthread_mutex_lock( pthread_mutex_t* m )
{
	if( !simThread() ) { static auto f=(int(*)(pthread_mutex_t*))realSym("pthread_mutex_lock"); return f(m); }
	ThreadCtx* t=T; schedPoint(t);
	MutexState* s = mx(m);
	int kind = m->__data.__kind & 3;
	while( s->owner && !(s->owner==t->id && kind==PTHREAD_MUTEX_RECURSIVE) )
	{
		if( s->owner==t->id ) { S->curThread=t->id; die( "deadlock" ); }
		blockOn( t, m );
	}
	s->owner=t->id; s->count++;
	hbAcquire( t, m );
	return 0;
}
int pthread_mutex_trylock( pthread_mutex_t* m )
{
	if( !simThread() ) { static auto f=(int(*)(pthread_mutex_t*))realSym("pthread_mutex_trylock"); return f(m); }
	ThreadCtx* t=T; schedPoint(t);
	MutexState* s = mx(m);
	if( s->owner && s->owner!=t->id ) return EBUSY;
	s->owner=t->id; s->count++; hbAcquire( t, m );
	return 0;
}
int pthread_mutex_unlock( pthread_mutex_t* m )
{
	if( !simThread() ) { static auto f=(int(*)(pthread_mutex_t*))realSym("pthread_mutex_unlock"); return f(m); }
	ThreadCtx* t=T;
	MutexState* s = mx(m);
	if( s->count>0 && --s->count==0 ) { s->owner=0; hbRelease( t, m ); wakeAll( m ); }
	schedPoint(t);
	return 0;
}
int pthread_rwlock_rdlock( pthread_rwlock_t* m )
{
	if( !simThread() ) { static auto f=(int(*)(pthread_rwlock_t*))realSym("pthread_rwlock_rdlock"); return f(m); }
	ThreadCtx* t=T; schedPoint(t);
	MutexState* s = mx(m);
	while( s->owner ) blockOn( t, m );
	s->readers++; hbAcquire( t, m );
	return 0;
}
int pthread_rwlock_wrlock( pthread_rwlock_t* m )
{
	if( !simThread() ) { static auto f=(int(*)(pthread_rwlock_t*))realSym("pthread_rwlock_wrlock"); return f(m); }
	ThreadCtx* t=T; schedPoint(t);
	MutexState* s = mx(m);
	while( s->owner || s->readers ) blockOn( t, m );
	s->owner=t->id; hbAcquire( t, m );
	return 0;
}
int pthread_rwlock_unlock( pthread_rwlock_t* m )
{
	if( !simThread() ) { static auto f=(int(*)(pthread_rwlock_t*))realSym("pthread_rwlock_unlock"); return f(m); }
	ThreadCtx* t=T;
	MutexState* s = mx(m);
	if( s->owner==t->id ) s->owner=0; else if( s->readers ) s->readers--;
	hbRelease( t, m ); wakeAll( m ); schedPoint(t);
	return 0;
}
static int g_onceMark[64]; static const void* g_onceAddr[64]; static int g_nonce=0;
int pthread_once( pthread_once_t* o, void (*fn)() )
{
	if( !simThread() ) { static auto f=(int(*)(pthread_once_t*,void(*)()))realSym("pthread_once"); return f(o,fn); }
	ThreadCtx* t=T; schedPoint(t);
	int i=0; for( ; i<g_nonce; i++ ) if( g_onceAddr[i]==o ) break;
	if( i==g_nonce ) { if( g_nonce==64 ) die("too many once"); g_onceAddr[g_nonce++]=o; g_onceMark[i]=( *o==2 ? 2 : 0 ); }
	while( g_onceMark[i]==1 ) blockOn( t, o );
	if( g_onceMark[i]==2 ) { hbAcquire( t, o ); return 0; }
	g_onceMark[i]=1;
	try { fn(); } catch( ... ) { g_onceMark[i]=0; wakeAll(o); throw; }
	g_onceMark[i]=2; *o=2; hbRelease( t, o ); wakeAll( o );
	return 0;
}

// ------------------------------------------------------------------ memory functions of the C library
void* memcpy( void* d, const void* s, size_t n )
{
	if( n && T && T->inOp ) { rangeAccess( (uintptr_t)s, n, false ); rangeAccess( (uintptr_t)d, n, true ); }
	void* r=d; asm volatile( "rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory" ); return r;
}
void* memmove( void* d, const void* s, size_t n )
{
	if( n && T && T->inOp ) { rangeAccess( (uintptr_t)s, n, false ); rangeAccess( (uintptr_t)d, n, true ); }
	void* r=d;
	if( (uintptr_t)d - (uintptr_t)s >= n ) asm volatile( "rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory" );
	else
	{
		char* dd=(char*)d+n-1; const char* ss=(const char*)s+n-1;
		asm volatile( "std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) :: "memory" );
	}
	return r;
}
void* memset( void* d, int c, size_t n )
{
	if( n && T && T->inOp ) rangeAccess( (uintptr_t)d, n, true );
	void* r=d; asm volatile( "rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory" ); return r;
}
int memcmp( const void* a, const void* b, size_t n )
{
	if( n && T && T->inOp ) { rangeAccess( (uintptr_t)a, n, false ); rangeAccess( (uintptr_t)b, n, false ); }
	const unsigned char *x=(const unsigned char*)a, *y=(const unsigned char*)b;
	for( size_t i=0; i<n; i++ ) if( x[i]!=y[i] ) return (int)x[i]-(int)y[i];
	return 0;
}

// ------------------------------------------------------------------ randomness and clocks
int rand()
{
	if( !G.on || !T ) { static uint64_t s=88172645463325252ull; s^=s<<13; s^=s>>7; s^=s<<17; return (int)(s & RAND_MAX); }
	uint64_t k = G.rndState++;
	switch( G.plan->rndMode )
	{
		case 1: return 0;
		case 2: return RAND_MAX;
		case 3: return (k&1) ? RAND_MAX : 0;
		case 4: return (int)( (k*7919) % RAND_MAX );
		case 5: return RAND_MAX - (int)(k&3);
		case 6: return (int)(k&3);
		default: return (int)( mix( k, 0x1234567 ) & RAND_MAX );
	}
}
void srand( unsigned s ) { if( G.on && T ) G.rndState = mix( s, G.plan->rnd ) >> 8; }
long random() { return rand(); }
void srandom( unsigned s ) { srand( s ); }
long lrand48() { return rand(); }
double drand48() { return rand() / ( (double)RAND_MAX+1 ); }
void srand48( long s ) { srand( (unsigned)s ); }
static void fillRandom( void* p, size_t n )     // follows the plan too: another value in every run, unlike rand()
{
	static uint64_t s=88172645463325252ull;
	for( size_t i=0; i<n; i++ )
	{
		if( G.on && T ) s=mix( G.rndState++, mix( G.plan->rnd, G.clock ) ); else { s^=s<<13; s^=s>>7; s^=s<<17; }
		((unsigned char*)p)[i] = (unsigned char)( s >> 24 );
	}
}
ssize_t getrandom( void* p, size_t n, unsigned ) { fillRandom( p, n ); return (ssize_t)n; }
int getentropy( void* p, size_t n ) { fillRandom( p, n ); return 0; }
uint32_t arc4random() { uint32_t v; fillRandom( &v, 4 ); return v; }
void arc4random_buf( void* p, size_t n ) { fillRandom( p, n ); }
uint32_t arc4random_uniform( uint32_t n ) { return n ? arc4random()%n : 0; }
unsigned simRandomDevice( void* ) __asm__( "_ZNSt13random_device9_M_getvalEv" );
unsigned simRandomDevice( void* ) { return arc4random(); }
time_t time( time_t* p )
{
	if( !G.on || !T ) { struct timeval tv; syscall( SYS_gettimeofday, &tv, nullptr ); if( p ) *p=tv.tv_sec; return tv.tv_sec; }
	if( p ) *p = (time_t)G.clock;
	return (time_t)G.clock;
}
int clock_gettime( clockid_t c, struct timespec* ts )
{
	if( !G.on || !T ) return (int)syscall( SYS_clock_gettime, c, ts );
	ts->tv_sec = (time_t)G.clock; ts->tv_nsec = (long)( (S->steps*17) % 1000000000 );
	return 0;
}
int gettimeofday( struct timeval* tv, void* )
{
	if( !G.on || !T ) return (int)syscall( SYS_gettimeofday, tv, nullptr );
	tv->tv_sec = (time_t)G.clock; tv->tv_usec = 0;
	return 0;
}

clock_t clock()
{
	if( !G.on || !T ) { struct timespec ts; syscall( SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts ); return (clock_t)( ts.tv_sec*CLOCKS_PER_SEC + ts.tv_nsec/1000 ); }
	return (clock_t)( G.clock*1000 + (int64_t)( S->steps % 1000 ) );
}

// ------------------------------------------------------------------ simulated C locale (with a decimal comma)
static const char LOCNAME[]="xx_XX";
static char g_loc[13][24];            // name of each category
static char g_locOut[400];
static void locInit( bool comma ) { for( int i=0; i<13; i++ ) strcpy( g_loc[i], comma ? LOCNAME : "C" ); }
static bool comma() { return G.on && T && !strcmp( g_loc[LC_NUMERIC], LOCNAME ); }
static bool commaHere() { return comma() && T->inOp && !T->pause; }
char* setlocale( int cat, const char* name )
{
	static auto f=(char*(*)(int,const char*))realSym("setlocale");
	if( !G.on || !T ) return f( cat, name );
	if( cat<0 || cat>12 ) return nullptr;
	if( name && strchr( name, ';' ) )           // as returned for all categories
	{
		if( cat!=LC_ALL ) return nullptr;
		const char* p=name;
		for( int i=0; i<13 && *p; i++ ) { size_t n=strcspn( p, ";" ); if( n<24 && i!=LC_ALL ) { memcpy( g_loc[i], p, n ); g_loc[i][n]=0; } p+=n; if( *p ) p++; }
	}
	else if( name )
	{
		const char* v = !*name ? ( G.plan->clocale ? LOCNAME : "C" ) : !strcmp( name, "POSIX" ) ? "C" : name;
		if( strcmp( v, "C" ) && strcmp( v, LOCNAME ) && strncmp( v, "C.", 2 ) ) return nullptr;      // not installed
		if( strlen(v)>=24 ) return nullptr;
		for( int i=0; i<13; i++ ) if( i==cat || cat==LC_ALL ) strcpy( g_loc[i], v );
	}
	if( cat!=LC_ALL ) return g_loc[cat];
	bool same=true;
	for( int i=0; i<13; i++ ) if( i!=LC_ALL && strcmp( g_loc[i], g_loc[LC_NUMERIC] ) ) same=false;
	if( same ) return strcpy( g_locOut, g_loc[LC_NUMERIC] );
	g_locOut[0]=0;
	for( int i=0; i<13; i++ ) { strcat( g_locOut, i==LC_ALL ? "-" : g_loc[i] ); strcat( g_locOut, ";" ); }
	return g_locOut;
}
struct lconv* localeconv() noexcept
{
	static auto f=(struct lconv*(*)())realSym("localeconv");
	struct lconv* l=f();
	if( !comma() ) return l;
	static struct lconv m; m=*l; m.decimal_point=(char*)","; m.thousands_sep=(char*)"."; m.grouping=(char*)"\3";
	return &m;
}
} // extern "C"
template<typename F> static auto parseComma( F f, const char* s, char** end ) -> decltype( f( s, end ) )
{
	char buf[128]; size_t i=0;
	for( ; s[i] && i<sizeof(buf)-1; i++ )
	{
		char c=s[i];
		if( c=='.' ) break;
		buf[i] = c==',' ? '.' : c;
	}
	buf[i]=0;
	char* e; auto v=f( buf, &e );
	if( end ) *end = (char*)s + (e-buf);
	return v;
}
extern "C" {
double strtod( const char* s, char** end )
{
	static auto f=(double(*)(const char*,char**))realSym("strtod");
	return comma() ? parseComma( f, s, end ) : f( s, end );
}
float strtof( const char* s, char** end )
{
	static auto f=(float(*)(const char*,char**))realSym("strtof");
	return comma() ? parseComma( f, s, end ) : f( s, end );
}
long double strtold( const char* s, char** end )
{
	static auto f=(long double(*)(const char*,char**))realSym("strtold");
	return comma() ? parseComma( f, s, end ) : f( s, end );
}
double atof( const char* s ) { return strtod( s, nullptr ); }
// formatting called from the code under test (the standard library formats with the "C" locale)
static int formatComma( char* b, size_t n, const char* fmt, va_list ap )
{
	static auto f=(int(*)(char*,size_t,const char*,va_list))realSym("vsnprintf");
	int r=f( b, n, fmt, ap );
	if( !b || !n || r<=0 ) return r;
	bool num=false;
	for( const char* c=fmt; *c; c++ ) if( *c=='%' ) { c++; while( *c && strchr( "+-# 0123456789.*lLhzqjt", *c ) ) c++; if( !*c ) break; if( strchr( "aAeEfFgG", *c ) ) num=true; }
	if( !num ) return r;
	for( char* c=b+1; *c; c++ ) if( *c=='.' && isdigit( (unsigned char)c[-1] ) ) *c=',';
	return r;
}
static bool fromProgram( const void* a ) { extern char __executable_start, etext; return (const char*)a>=&__executable_start && (const char*)a<&etext; }
int vsnprintf( char* b, size_t n, const char* fmt, va_list ap )
{
	static auto f=(int(*)(char*,size_t,const char*,va_list))realSym("vsnprintf");
	if( !f ) return -1;
	if( commaHere() && fromProgram( __builtin_return_address(0) ) ) return formatComma( b, n, fmt, ap );
	return f( b, n, fmt, ap );
}
int snprintf( char* b, size_t n, const char* fmt, ... )
{
	static auto f=(int(*)(char*,size_t,const char*,va_list))realSym("vsnprintf");
	va_list ap; va_start( ap, fmt );
	int r = commaHere() && fromProgram( __builtin_return_address(0) ) ? formatComma( b, n, fmt, ap ) : f( b, n, fmt, ap );
	va_end( ap ); return r;
}
int sprintf( char* b, const char* fmt, ... )
{
	static auto f=(int(*)(char*,size_t,const char*,va_list))realSym("vsnprintf");
	va_list ap; va_start( ap, fmt );
	int r = commaHere() && fromProgram( __builtin_return_address(0) ) ? formatComma( b, 100000, fmt, ap ) : f( b, 0x7fffffff, fmt, ap );
	va_end( ap ); return r;
}
int __isoc99_vsscanf( const char*, const char*, va_list );
static int scanComma( const char* s, const char* fmt, va_list ap )
{
	if( comma() )
	{
		char* e;
		if( !strcmp( fmt, "%lf" ) ) { double v=strtod( s, &e ); if( e==s ) return 0; *va_arg( ap, double* ) = v; return 1; }
		if( !strcmp( fmt, "%f" ) )  { float v=strtof( s, &e ); if( e==s ) return 0; *va_arg( ap, float* ) = v; return 1; }
		if( !strcmp( fmt, "%Lf" ) ) { long double v=strtold( s, &e ); if( e==s ) return 0; *va_arg( ap, long double* ) = v; return 1; }
	}
	return __isoc99_vsscanf( s, fmt, ap );
}
int sscanf( const char* s, const char* fmt, ... ) noexcept
{
	va_list ap; va_start( ap, fmt );
	int r=scanComma( s, fmt, ap );
	va_end( ap );
	return r;
}
int __isoc99_sscanf( const char* s, const char* fmt, ... )
{
	va_list ap; va_start( ap, fmt );
	int r=scanComma( s, fmt, ap );
	va_end( ap );
	return r;
}
} // extern "C"

// ------------------------------------------------------------------ operator new / delete
#define CALLER __builtin_return_address(0)
void* operator new( size_t n )                                    { return simNew( n, 16, false, CALLER ); }
void* operator new[]( size_t n )                                  { return simNew( n, 16, false, CALLER ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept    { return simNew( n, 16, true, CALLER ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept  { return simNew( n, 16, true, CALLER ); }
void* operator new( size_t n, std::align_val_t a )                { return simNew( n, (size_t)a, false, CALLER ); }
void* operator new[]( size_t n, std::align_val_t a )              { return simNew( n, (size_t)a, false, CALLER ); }
void operator delete( void* p ) noexcept                          { simDelete( p ); }
void operator delete[]( void* p ) noexcept                        { simDelete( p ); }
void operator delete( void* p, size_t ) noexcept                  { simDelete( p ); }
void operator delete[]( void* p, size_t ) noexcept                { simDelete( p ); }
void operator delete( void* p, std::align_val_t ) noexcept        { simDelete( p ); }
void operator delete[]( void* p, std::align_val_t ) noexcept      { simDelete( p ); }
void operator delete( void* p, size_t, std::align_val_t ) noexcept  { simDelete( p ); }
void operator delete[]( void* p, size_t, std::align_val_t ) noexcept{ simDelete( p ); }
void operator delete( void* p, const std::nothrow_t& ) noexcept   { simDelete( p ); }
void operator delete[]( void* p, const std::nothrow_t& ) noexcept { simDelete( p ); }

// ------------------------------------------------------------------ simulated disk
namespace sim {
struct SimFile { char name[64]; int fd; bool used; };
static SimFile g_files[32];
struct SimFd { int fd; int file; bool used; };
static SimFd g_fds[64];
static size_t g_diskUsed = 0;

static bool simPath( const char* p ) { return G.on && T && p && !strncmp( p, "/simdisk/", 9 ); }
static int ioFault( int kind, int* arg )
{
	int n = ++S->ioCalls[kind];
	if( !T || !T->inOp || G.ioOff ) return 0;
	for( auto& f: G.plan->io )
		if( f.kind==kind && f.nth==n ) { S->ioFired[kind]++; *arg=f.arg; return 1; }
	return 0;
}
static int diskCap() { if( G.ioOff ) return -1; for( auto& f: G.plan->io ) if( f.kind==IO_CAP ) return f.arg; return -1; }
static int findFile( const char* p, bool create )
{
	for( int i=0; i<32; i++ ) if( g_files[i].used && !strcmp( g_files[i].name, p ) ) return i;
	if( !create ) return -1;
	for( int i=0; i<32; i++ ) if( !g_files[i].used )
	{
		g_files[i].used=true; strncpy( g_files[i].name, p, 63 ); g_files[i].name[63]=0;
		g_files[i].fd = (int)syscall( SYS_memfd_create, "sim", 0 );
		return i;
	}
	return -1;
}
static int simFileOf( int fd )
{
	for( auto& x: g_fds ) if( x.used && x.fd==fd ) return x.file;
	return -1;
}
// opens a file of the simulated disk, returns a descriptor
static int simOpen( const char* p, int flags )
{
	int arg=0;
	if( ioFault( IO_OPEN, &arg ) ) { errno = arg ? arg : EACCES; return -1; }
	int f = findFile( p, (flags & O_CREAT)!=0 );
	if( f<0 ) { errno=ENOENT; return -1; }
	if( (flags & O_EXCL) && (flags & O_CREAT) && lseek( g_files[f].fd, 0, SEEK_END )>0 ) { errno=EEXIST; return -1; }
	if( flags & O_TRUNC ) { if( ftruncate( g_files[f].fd, 0 ) ) {} }
	char path[64]; snprintf( path, sizeof path, "/proc/self/fd/%d", g_files[f].fd );
	int fd = (int)syscall( SYS_openat, AT_FDCWD, path, flags & ~(O_CREAT|O_EXCL|O_TRUNC), 0 );
	if( fd<0 ) return -1;
	for( auto& x: g_fds ) if( !x.used ) { x.used=true; x.fd=fd; x.file=f; break; }
	return fd;
}
static ssize_t simWrite( int fd, const void* buf, size_t n )
{
	int arg=0;
	if( ioFault( IO_WRITE, &arg ) )
	{
		if( arg > 0 ) { errno = arg; return -1; }
		size_t k = (size_t)(-arg); if( k < n ) n = k;     // short write
		if( n==0 ) { errno=ENOSPC; return -1; }
	}
	int cap = diskCap();
	if( cap >= 0 )
	{
		size_t room = g_diskUsed < (size_t)cap ? (size_t)cap - g_diskUsed : 0;
		if( room < n ) { S->ioFired[IO_CAP]++; n = room; }
		if( n==0 ) { errno=ENOSPC; return -1; }
	}
	ssize_t r = syscall( SYS_write, fd, buf, n );
	if( r>0 ) g_diskUsed += (size_t)r;
	return r;
}
static ssize_t cookieWrite( void* c, const char* b, size_t n ) { ssize_t r=simWrite( (int)(intptr_t)c, b, n ); return r<0 ? 0 : r; }
static ssize_t cookieRead( void* c, char* b, size_t n )
{
	int arg=0;
	if( ioFault( IO_READ, &arg ) )
	{
		if( arg > 0 ) { errno=arg; return -1; }
		if( (size_t)-arg < n ) n=(size_t)-arg;       // the file ends early
		if( !n ) return 0;
	}
	return syscall( SYS_read, (int)(intptr_t)c, b, n );
}
static int cookieSeek( void* c, off64_t* o, int w ) { off64_t r=lseek( (int)(intptr_t)c, *o, w ); if( r<0 ) return -1; *o=r; return 0; }
static void forget( int fd ) { for( auto& x: g_fds ) if( x.used && x.fd==fd ) x.used=false; }
// a failing close loses what had not reached the disk yet
static bool closeFails( int file )
{
	int arg=0;
	if( !ioFault( IO_CLOSE, &arg ) ) return false;
	off_t n=lseek( g_files[file].fd, 0, SEEK_END );
	if( n>0 && ftruncate( g_files[file].fd, n/2 ) ) {}
	errno=arg?arg:EIO;
	return true;
}
static int cookieClose( void* c )
{
	int fd=(int)(intptr_t)c, file=simFileOf( fd ); forget( fd ); syscall( SYS_close, fd );
	return file>=0 && closeFails( file ) ? -1 : 0;
}
static FILE* simFopen( const char* p, const char* mode, void* caller )
{
	int flags = mode[0]=='r' ? O_RDONLY : mode[0]=='a' ? O_WRONLY|O_CREAT|O_APPEND : O_WRONLY|O_CREAT|O_TRUNC;
	if( strchr( mode, '+' ) ) flags = (flags & ~(O_WRONLY|O_RDONLY)) | O_RDWR;
	int fd = simOpen( p, flags );
	if( fd<0 ) return nullptr;
	bool fromExe = (uintptr_t)caller >= g_exlo && (uintptr_t)caller < g_exhi;
	Dl_info di;
	if( !fromExe && dladdr( caller, &di ) && di.dli_fname && strstr( di.dli_fname, "tinyxml" ) ) fromExe=true;   // reads only

	ThreadCtx* t=T; t->pause++;
	FILE* f;
	if( fromExe )      // writes of stdio itself cannot be intercepted: give it our own functions
	{
		cookie_io_functions_t io = { cookieRead, cookieWrite, cookieSeek, cookieClose };
		f = fopencookie( (void*)(intptr_t)fd, mode, io );
	}
	else
		f = fdopen( fd, mode );
	t->pause--;
	return f;
}
} // namespace sim

extern "C" {
FILE* fopen( const char* p, const char* mode )
{
	if( simPath(p) ) return simFopen( p, mode, CALLER );
	static auto f=(FILE*(*)(const char*,const char*))realSym("fopen"); return f( p, mode );
}
FILE* fopen64( const char* p, const char* mode )
{
	if( simPath(p) ) return simFopen( p, mode, CALLER );
	static auto f=(FILE*(*)(const char*,const char*))realSym("fopen64"); return f( p, mode );
}
int fclose( FILE* fp )
{
	static auto f=(int(*)(FILE*))realSym("fclose");
	if( G.on && T && T->inOp )
	{
		int fd = fileno( fp );
		if( fd>=0 && simFileOf( fd )>=0 )
		{
			int file=simFileOf( fd ); forget( fd );
			int r=f( fp );
			return closeFails( file ) ? -1 : r;
		}
	}
	return f( fp );
}
int open( const char* p, int flags, ... )
{
	va_list ap; va_start( ap, flags ); mode_t m=va_arg( ap, int ); va_end( ap );
	if( simPath(p) ) return simOpen( p, flags );
	return (int)syscall( SYS_openat, AT_FDCWD, p, flags, m );
}
int open64( const char* p, int flags, ... )
{
	va_list ap; va_start( ap, flags ); mode_t m=va_arg( ap, int ); va_end( ap );
	if( simPath(p) ) return simOpen( p, flags );
	return (int)syscall( SYS_openat, AT_FDCWD, p, flags, m );
}
ssize_t write( int fd, const void* b, size_t n )
{
	if( G.on && T && simFileOf(fd)>=0 ) return simWrite( fd, b, n );
	return syscall( SYS_write, fd, b, n );
}
ssize_t writev( int fd, const struct iovec* v, int c )
{
	if( G.on && T && simFileOf(fd)>=0 )
	{
		ssize_t tot=0;
		for( int i=0; i<c; i++ )
		{
			if( !v[i].iov_len ) continue;
			ssize_t r=simWrite( fd, v[i].iov_base, v[i].iov_len );
			if( r<0 ) return tot ? tot : r;
			tot += r;
			if( (size_t)r < v[i].iov_len ) break;
		}
		return tot;
	}
	return syscall( SYS_writev, fd, v, c );
}
int close( int fd )
{
	if( G.on && T && simFileOf(fd)>=0 )
	{
		int file=simFileOf( fd ); forget( fd ); syscall( SYS_close, fd );
		return closeFails( file ) ? -1 : 0;
	}
	return (int)syscall( SYS_close, fd );
}
int fsync( int fd )
{
	if( G.on && T && simFileOf(fd)>=0 ) { int arg=0; if( ioFault( IO_SYNC, &arg ) ) { errno=arg?arg:EIO; return -1; } return 0; }
	return (int)syscall( SYS_fsync, fd );
}
int fdatasync( int fd ) { return fsync( fd ); }
// failed assertions of the code under test
void __assert_fail( const char* e, const char* f, unsigned, const char* ) noexcept
{
	const char* b=strrchr( f, '/' );
	if( S && !S->death[0] ) snprintf( S->death, sizeof(S->death), "assertion failed: %s (%s)", e, b ? b+1 : f );
	_exit( 77 );
}
int rename( const char* a, const char* b ) noexcept
{
	if( !simPath(a) ) return (int)syscall( SYS_rename, a, b );
	int arg=0;
	if( ioFault( IO_RENAME, &arg ) ) { errno=arg?arg:EACCES; return -1; }
	int i=findFile( a, false );
	if( i<0 ) { errno=ENOENT; return -1; }
	int j=findFile( b, false );
	if( j>=0 && j!=i ) g_files[j].used=false;
	strncpy( g_files[i].name, b, 63 );
	return 0;
}
int unlink( const char* a ) noexcept
{
	if( !simPath(a) ) return (int)syscall( SYS_unlink, a );
	int i=findFile( a, false ); if( i<0 ) { errno=ENOENT; return -1; }
	g_files[i].used=false;
	return 0;
}
int remove( const char* a ) noexcept
{
	if( simPath(a) ) return unlink( a );
	static auto f=(int(*)(const char*))realSym("remove"); return f( a );
}
} // extern "C"
namespace std { void __glibcxx_assert_fail( const char* f, int, const char*, const char* e ) noexcept
{
	const char* b= f ? strrchr( f, '/' ) : nullptr;
	if( S && !S->death[0] ) snprintf( S->death, sizeof(S->death), "library assertion failed: %s (%s)", e ? e : "?", b ? b+1 : "?" );
	_exit( 77 );
} }

namespace sim {
// stand-in for the OpenCV file writer (see cat_cv.cpp)
int simImwrite( const char* name, const void* data, size_t n )
{
	int arg=0;
	if( ioFault( IO_IMWRITE, &arg ) )
	{
		if( arg==2 ) return -2;    // the writer throws
		return -1;                 // the writer reports failure
	}
	int f = findFile( name, true );
	if( f<0 ) return -1;
	if( ftruncate( g_files[f].fd, 0 ) ) {}
	lseek( g_files[f].fd, 0, SEEK_SET );
	ssize_t r = syscall( SYS_write, g_files[f].fd, data, n );
	return r==(ssize_t)n ? 0 : -1;
}
void simPutFile( const char* name, const char* data, size_t n )
{
	int f = findFile( name, true );
	if( f<0 ) return;
	if( ftruncate( g_files[f].fd, 0 ) ) {}
	lseek( g_files[f].fd, 0, SEEK_SET );
	if( syscall( SYS_write, g_files[f].fd, data, n ) < 0 ) {}
}

// ------------------------------------------------------------------ output tokens
static unsigned char* tokSpace( size_t n )
{
	ThreadCtx* t=T;
	if( !t ) return nullptr;
	if( t->tokLen + n > TOKMAX ) die( "simulator: output buffer full" );
	unsigned char* p = S->tok[t->id] + t->tokLen;
	t->tokLen += (uint32_t)n;
	return p;
}
static void rawCopy( void* d, const void* s, size_t n ) { asm volatile( "rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory" ); }
void out_num( long double v )  { unsigned char* p=tokSpace(11); if(!p) return; p[0]=T_NUM; rawCopy( p+1, &v, 10 ); }
void out_int( long v )         { unsigned char* p=tokSpace(9); if(!p) return; p[0]=T_INT; rawCopy( p+1, &v, 8 ); }
void out_bool( bool v )        { unsigned char* p=tokSpace(2); if(!p) return; p[0]=T_BOOL; p[1]=v; }
void out_str( const char* s, size_t n ) { unsigned char* p=tokSpace(5+n); if(!p) return; p[0]=T_STR; uint32_t k=(uint32_t)n; rawCopy( p+1, &k, 4 ); rawCopy( p+5, s, n ); }
void out_tag( const char* s )  { size_t n=strlen(s); unsigned char* p=tokSpace(5+n); if(!p) return; p[0]=T_TAG; uint32_t k=(uint32_t)n; rawCopy( p+1, &k, 4 ); rawCopy( p+5, s, n ); }

// ------------------------------------------------------------------ streams
struct CapBuf: std::streambuf     // replaces the buffers of cout and cerr
{
	bool err;
	explicit CapBuf( bool e ): err(e) {}
	void put( const char* s, size_t n )
	{
		ThreadCtx* t=T;
		uint32_t& len = err ? S->errLen : S->outLen;
		char* buf = err ? S->errTxt : S->outTxt;
		if( len + n < TXTMAX ) { rawCopy( buf+len, s, n ); len += (uint32_t)n; }
		if( t && t->rec ) { if( err ) t->rec->errB += (int)n; else t->rec->outB += (int)n; }
	}
	int_type overflow( int_type c ) override { char x=(char)c; put( &x, 1 ); return c; }
	std::streamsize xsputn( const char* s, std::streamsize n ) override { put( s, (size_t)n ); return n; }
};
struct StreamFault {};
struct PrBuf: std::streambuf      // stream given to printing operations
{
	long limit; int mode; size_t got=0; uint32_t beg;
	PrBuf( long l, int m ): limit(l), mode(m) { beg=T->tokLen; }
	std::streamsize xsputn( const char* s, std::streamsize n ) override
	{
		std::streamsize k=n;
		if( limit>=0 && (long)got + k > limit ) k = limit - (long)got;
		if( k<0 ) k=0;
		if( k )
		{
			unsigned char* p=tokSpace( (size_t)k ); if( p ) rawCopy( p, s, (size_t)k );
			got += (size_t)k;
		}
		if( k<n ) { S->faults++; if( T ) T->faultsFired++; if( mode==1 ) throw StreamFault(); }
		return k;
	}
	int_type overflow( int_type c ) override { char x=(char)c; return xsputn( &x, 1 )==1 ? c : traits_type::eof(); }
};

static void setFormat( std::ostream& os, int fmt )
{
	if( !fmt ) return;
	if( fmt & 1 ) os << std::hex << std::showbase;
	if( fmt & 2 ) os.precision( 11 );
	if( fmt & 4 ) os << std::scientific;
	if( fmt & 8 ) os.fill( '*' );
	if( fmt & 16 ) os << std::boolalpha << std::showpos;
	if( fmt & 32 ) os << std::left;
	if( fmt & 64 ) os << std::fixed;
	if( fmt & 128 ) os.exceptions( std::ios::badbit );
}

// ------------------------------------------------------------------ operations
static void __attribute__((noinline)) scribble( uint64_t f )
{
	volatile uint64_t a[3000];
	uint64_t v=f;
	for( int i=0; i<3000; i++ ) { a[i]=v; if( f>1 ) v=v*6364136223846793005ull+1; }
}

struct StdFmt
{
	struct One { std::ios_base::fmtflags f; std::streamsize p, w; char c; std::ios_base::iostate e; const void *buf, *tie; std::locale loc;
		bool operator==( const One& o ) const { return f==o.f && p==o.p && w==o.w && c==o.c && e==o.e && buf==o.buf && tie==o.tie && loc==o.loc; } };
	One s[4]; std::terminate_handler th; std::new_handler nh;
	bool operator==( const StdFmt& o ) const { for( int i=0; i<4; i++ ) if( !( s[i]==o.s[i] ) ) return false; return th==o.th && nh==o.nh; }
};
static StdFmt stdFmt()
{
	auto one=[]( std::ios& x ) { return StdFmt::One{ x.flags(), x.precision(), x.width(), x.fill(), x.exceptions(), x.rdbuf(), x.tie(), x.getloc() }; };
	return { { one(std::cout), one(std::cerr), one(std::clog), one(std::cin) }, std::get_terminate(), std::get_new_handler() };
}

static int runOp( ThreadCtx* t, const POp& op, int prog, int idx, bool retry )
{
	if( S->nrec >= MAXREC ) die( "simulator: too many operations" );
	RecShm& r = S->rec[S->nrec++];
	memset( &r, 0, sizeof r );
	const OpDesc& d = G.uni->ops[op.op];
	OpFn fn = op.tu && G.second && G.second->ops[op.op].fn ? G.second->ops[op.op].fn : d.fn;
	r.prog=prog; r.idx=idx; r.op=op.op; r.st=ST_UNFINISHED; r.retry=retry;
	r.tokThread=(uint32_t)t->id; r.tokBeg=r.tokEnd=t->tokLen;
	Arg args[16];
	int n=0;
	for( auto& a: op.a )
	{
		if( n==16 ) break;
		args[n].slot=a.slot; args[n].num=a.num; args[n].str=a.str.c_str(); args[n].len=a.str.size();
		n++;
	}
	uint64_t f = G.plan->fill;
	t->pause++;
	bool single = !G.mt;
	size_t e0=0, w0=0;
	if( single ) { e0=G.uni->errorCount(); w0=G.uni->warningCount(); }
	StdFmt sf0 = stdFmt();
	t->pause--;
	S->curOp[t->id]=op.op; S->curThread=t->id;
	t->op=op.op; t->rec=&r;
	t->steps=0; t->allocs=0; t->faultsFired=0;
	t->opFrame=(uintptr_t)__builtin_frame_address(0); t->maxStack=0;
	t->fault = retry ? 0 : op.fault; t->fmode=op.fmode;
	Ctx c{ G.world, args, n, nullptr };
	t->pause++;
	PrBuf pb( retry ? -1 : op.lim, op.limMode );
	std::ostream os( &pb );
	os.imbue( std::locale::classic() );
	setFormat( os, op.fmt );
	auto fl0=os.flags(); auto pr0=os.precision(); auto fc0=os.fill();
	c.os=&os;
	t->pause--;
	uint32_t prBeg = t->tokLen;
	scribble( f );
	int st=ST_OK;
	G.ioOff=retry;
	t->inOp=true;
	try
	{
		fn( c );
		t->inOp=false;
	}
	catch( const std::bad_alloc& )        { t->inOp=false; st=ST_BADALLOC; }
	catch( const std::ios_base::failure& e ) { t->inOp=false; st=ST_FAILURE; strncpy( r.what, e.what(), sizeof(r.what)-1 ); }
	catch( const std::runtime_error& e )  { t->inOp=false; st=ST_RUNTIME; strncpy( r.what, e.what(), sizeof(r.what)-1 ); }
	catch( const std::logic_error& e )    { t->inOp=false; st=ST_LOGIC; strncpy( r.what, e.what(), sizeof(r.what)-1 ); }
	catch( const std::exception& e )      { t->inOp=false; st=ST_STDEXC; strncpy( r.what, e.what(), sizeof(r.what)-1 ); }
	catch( ... )                          { t->inOp=false; st=ST_OTHEREXC; }
	t->fault=0;
	r.st=st; r.steps=t->steps; r.allocs=t->allocs; r.stack=t->maxStack; r.faults=t->faultsFired;
	S->steps += t->steps;
	if( d.flags & F_PRINT )
	{
		r.prBeg=prBeg; r.prEnd=t->tokLen; r.tokBeg=r.tokEnd=t->tokLen;
		r.fmtChanged = os.flags()!=fl0 || os.precision()!=pr0 || os.fill()!=fc0;
		r.streamState = (int)os.rdstate();
	}
	else if( st==ST_OK ) r.tokEnd=t->tokLen;
	else { t->tokLen=r.tokBeg; r.tokEnd=r.tokBeg; }
	t->pause++;
	if( single ) { r.err=(long)(G.uni->errorCount()-e0); r.warn=(long)(G.uni->warningCount()-w0); }
	StdFmt s1=stdFmt();
	r.stdFmtChanged = !( s1==sf0 );
	t->pause--;
	t->rec=nullptr;
	return st;
}
static void runProg( ThreadCtx* t, int p )
{
	const auto& v = G.plan->prog[p];
	for( size_t i=0; i<v.size(); i++ )
	{
		int st = runOp( t, v[i], p, (int)i, false );
		if( st!=ST_OK && v[i].retry ) runOp( t, v[i], p, (int)i, true );
	}
}

static void* threadMain( void* arg )
{
	ThreadCtx* t = (ThreadCtx*)arg;
	T = t;
	while( sem_wait( &t->sem ) == -1 && errno == EINTR ) {}
	runProg( t, t->id );
	t->finished = true;
	int u = nextRunnable( t->id );
	if( u ) { S->curThread=u; sem_post( &g_th[u].sem ); }
	else
	{
		for( int k=1; k<=3; k++ ) if( g_th[k].started && !g_th[k].finished ) { S->curThread=k; die( "deadlock" ); }
		sem_post( &g_th[0].sem );
	}
	return nullptr;
}

struct CommaPunct: std::numpunct<char>
{
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\3"; }
	std::string do_truename() const override { return "wahr"; }
	std::string do_falsename() const override { return "falsch"; }
};
struct GroupPunct: std::numpunct<char>
{
	char do_decimal_point() const override { return '.'; }
	char do_thousands_sep() const override { return ','; }
	std::string do_grouping() const override { return "\1"; }
};

static void childMain( const Plan& p )
{
	struct itimerval it{};
	it.it_value.tv_sec = 40;
	setitimer( ITIMER_PROF, &it, nullptr );      // processor time, not wall time
	G.plan=&p; G.uni=findUniverse( p.universe ); G.second=secondOf( G.uni );
	if( !G.uni ) die( "simulator: no such universe" );
	G.rng = Rng( p.sched );
	G.search = p.search;
	G.budget = p.budget ? p.budget : 40000000ull;
	G.stack = p.stack;
	G.rndState = p.rnd; G.clock=p.clock;
	g_top = (size_t)( p.shift & ~15 );
	G.reversed = p.shift & 1;
	for( int i=0; i<4; i++ ) { g_th[i].id=i; sem_init( &g_th[i].sem, 0, 0 ); }
	T = &g_th[0];
	if( !getenv( "SIM_STDERR" ) ) { int fd=(int)syscall( SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0 ); if( fd>=0 ) dup2( fd, 2 ); }
	CapBuf co(false), ce(true);
	std::cout.rdbuf( &co ); std::cerr.rdbuf( &ce );
	if( p.locale==1 ) std::locale::global( std::locale( std::locale::classic(), new CommaPunct ) );
	if( p.locale==2 ) std::locale::global( std::locale( std::locale::classic(), new GroupPunct ) );
	locInit( p.clocale );
	G.on=true;
	g_live=g_liveBytes=0;
	G.world = G.uni->create();
	G.uni->resetGlobals();
	size_t e0=G.uni->errorCount(), w0=G.uni->warningCount();
	runProg( T, 0 );
	int nt = p.nthreads();
	if( nt )
	{
		if( p.seq )
		{
			for( int i=1; i<=nt; i++ )
			{
				if( p.only && p.only!=i ) continue;
				runProg( &g_th[0], i );
			}
		}
		else
		{
			pthread_t th[4];
			T->pause++;
			pthread_attr_t at; pthread_attr_init( &at ); pthread_attr_setstacksize( &at, 4u<<20 );
			for( int i=1; i<=nt; i++ )
			{
				if( p.prog[i].empty() ) continue;
				ThreadCtx& t=g_th[i];
				t.started=true;
				t.vc[i]=1;
				for( auto& x: p.pre ) if( x.thread==i && t.npre<512 ) t.pre[t.npre++]=&x;
				pthread_create( &th[i], &at, threadMain, &t );
			}
			resetCountdown();
			G.hotStep = p.gap/8 + 1;
			if( p.variant=="shared" ) G.hotTop = ARENA + g_top;
			T->pause--;
			G.mt=true;
			int first=0; for( int i=1; i<=nt && !first; i++ ) if( g_th[i].started ) first=i;
			S->curThread=first;
			sem_post( &g_th[first].sem );
			while( sem_wait( &g_th[0].sem ) == -1 && errno == EINTR ) {}
			G.mt=false;
			for( int i=1; i<=nt; i++ ) if( g_th[i].started ) pthread_join( th[i], nullptr );
		}
	}
	S->curThread=0; S->curOp[0]=-1;
	runProg( T, PROG_POST );
	S->errTotal=(long)(G.uni->errorCount()-e0); S->warnTotal=(long)(G.uni->warningCount()-w0);
	S->curThread=0; S->curOp[0]=-2;
	G.uni->destroy( G.world );
	S->liveEnd=g_live; S->liveBytes=g_liveBytes;
	// the simulated disk
	for( auto& f: g_files ) if( f.used )
	{
		off_t n = lseek( f.fd, 0, SEEK_END );
		if( S->fileLen + 80 + (size_t)n > FILEMAX ) break;
		char* q=S->files+S->fileLen;
		rawCopy( q, f.name, 64 ); uint32_t k=(uint32_t)n; rawCopy( q+64, &k, 4 );
		if( pread( f.fd, q+68, (size_t)n, 0 ) != n ) {}
		S->fileLen += 68+k;
	}
	G.on=false;
	S->done=1;
	_exit( 0 );
}

// ------------------------------------------------------------------ parent side
static std::vector<const Universe*>& uniList() { static std::vector<const Universe*> v; return v; }
void registerUniverse( const Universe* u ) { uniList().push_back( u ); }
static std::vector<const Universe*>& secondList() { static std::vector<const Universe*> v; return v; }
void registerSecond( const Universe* u ) { secondList().push_back( u ); }
const Universe* secondOf( const Universe* u ) { for( auto s: secondList() ) if( !strcmp( s->name, u->name ) ) return s; return nullptr; }
const std::vector<const Universe*>& universes() { return uniList(); }
const Universe* findUniverse( const std::string& n )
{
	for( auto u: uniList() ) if( n==u->name ) return u;
	return nullptr;
}
int findOp( const Universe* u, const std::string& n )
{
	static std::map<std::pair<const Universe*,std::string>,int> idx;
	if( idx.empty() )
		for( auto x: uniList() ) for( int i=0; i<x->nops; i++ ) idx[{x,x->ops[i].name}]=i;
	auto it=idx.find( {u,n} );
	return it==idx.end() ? -1 : it->second;
}
const char* stName( int s )
{
	switch( s ) { case ST_OK: return "ok"; case ST_BADALLOC: return "bad_alloc"; case ST_RUNTIME: return "runtime_error";
		case ST_LOGIC: return "logic_error"; case ST_STDEXC: return "std::exception"; case ST_OTHEREXC: return "non-standard exception"; case ST_FAILURE: return "ios_base::failure"; }
	return "unfinished";
}

static int phdrCb( struct dl_phdr_info* i, size_t, void* )
{
	if( i->dlpi_name && strstr( i->dlpi_name, "tinyxml2" ) )
		for( int k=0; k<i->dlpi_phnum; k++ )
			if( i->dlpi_phdr[k].p_type==PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X) )
			{
				g_tx2lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
				g_tx2hi = g_tx2lo + i->dlpi_phdr[k].p_memsz;
			}
	return 0;
}
void rtInit()
{
	if( S ) return;
	auto map=[]( uintptr_t a, size_t n )
	{
		void* p = mmap( (void*)a, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0 );
		if( p != (void*)a ) { fprintf( stderr, "simulator: cannot map memory\n" ); _exit( 2 ); }
	};
	map( ARENA, ARENA_SIZE );
	map( SHADOW, ARENA_SIZE/8 );
	map( RSH, ARENA_SIZE/8*sizeof(Cell) );
	g_dataLo=(uintptr_t)&__data_start; g_dataHi=(uintptr_t)&_end;
	map( RSHD, ((g_dataHi-g_dataLo)/8+2)*sizeof(Cell) );
	g_exlo=(uintptr_t)&__executable_start; g_exhi=(uintptr_t)&etext;
	S=(Shm*)mmap( nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0 );
	dl_iterate_phdr( phdrCb, nullptr );
	auto excl=[]( const void* p, size_t n ) { g_excl[g_nexcl][0]=(uintptr_t)p; g_excl[g_nexcl][1]=(uintptr_t)p+n; g_nexcl++; };
	excl( &std::cout, sizeof(std::cout) ); excl( &std::cerr, sizeof(std::cerr) ); excl( &std::clog, sizeof(std::clog) ); excl( &std::cin, sizeof(std::cin) );
}

static void h( uint64_t& x, uint64_t v ) { x = (x ^ v) * 0x100000001b3ull; x ^= x>>29; }
static void hs( uint64_t& x, const std::string& s ) { for( char c: s ) h( x, (unsigned char)c ); h( x, s.size()+7777 ); }

bool simReversed() { return G.reversed; }
Result execute( const Plan& p )
{
	rtInit();
	// reset the header of the shared area
	S->done=0; S->curThread=0; S->death[0]=0; S->memerr[0]=0; S->nrec=S->nrace=S->ntrace=0;
	for( int i=0; i<4; i++ ) S->curOp[i]=-1;
	S->liveEnd=S->liveBytes=S->steps=S->accesses=S->allocs=S->faults=S->switches=0; S->errTotal=S->warnTotal=0;
	memset( S->ioFired, 0, sizeof S->ioFired ); memset( S->ioCalls, 0, sizeof S->ioCalls );
	memset( S->memerr, 0, sizeof S->memerr ); memset( S->death, 0, sizeof S->death );
	S->outLen=S->errLen=S->fileLen=0;
	pid_t pid = fork();
	if( pid==0 ) { childMain( p ); _exit( 0 ); }
	if( pid<0 ) { perror( "fork" ); _exit( 2 ); }
	int st=0;
	while( waitpid( pid, &st, 0 ) < 0 && errno==EINTR ) {}
	Result R;
	const Universe* u=findUniverse( p.universe );
	R.done = S->done && WIFEXITED(st) && WEXITSTATUS(st)==0;
	R.memerr = S->memerr;
	if( !R.done )
	{
		if( S->death[0] ) R.death=S->death;
		else if( WIFSIGNALED(st) )
		{
			int sg=WTERMSIG(st);
			R.death = sg==SIGABRT ? "aborted" : sg==SIGSEGV ? "segmentation fault" : sg==SIGPROF ? "hang" : sg==SIGFPE ? "arithmetic fault" : "signal "+std::to_string(sg);
		}
		else R.death = "exit(" + std::to_string( WEXITSTATUS(st) ) + ")";
		int o = S->curOp[S->curThread&3];
		R.deathOp = o>=0 ? u->ops[o].name : o==-2 ? "(destruction)" : "(none)";
	}
	R.liveEnd=S->liveEnd; R.liveBytes=S->liveBytes; R.steps=S->steps; R.accesses=S->accesses; R.allocs=S->allocs; R.faults=S->faults; R.switches=S->switches;
	R.errTotal=S->errTotal; R.warnTotal=S->warnTotal;
	for( int i=0; i<IO_NKIND; i++ ) { R.ioFired[i]=S->ioFired[i]; R.ioCalls[i]=S->ioCalls[i]; }
	uint64_t x=0xcbf29ce484222325ull;
	R.ops.reserve( S->nrec );
	for( int i=0; i<S->nrec; i++ )
	{
		const RecShm& r=S->rec[i];
		OpRes o;
		o.prog=r.prog; o.idx=r.idx; o.st=r.st; o.isRetry=r.retry; o.steps=r.steps; o.allocs=r.allocs; o.stack=r.stack; o.faultsFired=r.faults;
		o.err=r.err; o.warn=r.warn; o.outBytes=r.outB; o.errBytes=r.errB; o.fmtChanged=r.fmtChanged; o.stdFmtChanged=r.stdFmtChanged; o.streamState=r.streamState;
		o.what=r.what;
		const unsigned char* b=S->tok[r.tokThread];
		if( r.prEnd>r.prBeg ) o.printed.assign( (const char*)b+r.prBeg, r.prEnd-r.prBeg );
		for( uint32_t q=r.tokBeg; q<r.tokEnd; )
		{
			Tok t; t.t=(TokType)b[q];
			switch( t.t )
			{
				case T_NUM: memcpy( &t.v, b+q+1, 10 ); q+=11; break;
				case T_INT: { long v; memcpy( &v, b+q+1, 8 ); t.v=v; q+=9; } break;
				case T_BOOL: t.v=b[q+1]; q+=2; break;
				case T_STR: case T_TAG: { uint32_t k; memcpy( &k, b+q+1, 4 ); t.s.assign( (const char*)b+q+5, k ); q+=5+k; } break;
				default: q=r.tokEnd; break;
			}
			o.tok.push_back( t );
		}
		h( x, o.prog ); h( x, o.idx ); h( x, o.st ); h( x, r.steps ); h( x, r.allocs ); hs( x, o.printed );
		for( auto& t: o.tok )
		{
			unsigned char bb[16]={0}; memcpy( bb, &t.v, 10 );
			uint64_t a1,a2; memcpy( &a1, bb, 8 ); memcpy( &a2, bb+8, 8 );
			h( x, t.t ); h( x, a1 ); h( x, a2 & 0xffff ); hs( x, t.s );
		}
		R.ops.push_back( std::move(o) );
	}
	for( int i=0; i<S->nrace; i++ )
	{
		Race r; r.a=u->ops[S->race[i].a].name; r.b=u->ops[S->race[i].b].name; r.heap=S->race[i].heap; r.where=S->race[i].where;
		if( r.a > r.b ) std::swap( r.a, r.b );
		hs( x, r.a ); hs( x, r.b );
		R.races.push_back( r );
	}
	uint64_t y=1;
	for( int i=0; i<S->ntrace; i++ )
	{
		R.trace.push_back( S->trace[i] );
		h( y, S->trace[i].thread ); h( y, S->trace[i].at ); h( y, S->trace[i].to );
	}
	R.schedHash=y;
	h( x, y ); h( x, R.liveEnd ); hs( x, R.death ); hs( x, R.memerr ); hs( x, R.deathOp );
	for( uint32_t q=0; q+68<=S->fileLen; )
	{
		const char* f=S->files+q; uint32_t k; memcpy( &k, f+64, 4 );
		R.files[f].assign( f+68, k );
		hs( x, f ); hs( x, R.files[f] );
		q += 68+k;
	}
	R.outText.assign( S->outTxt, S->outLen ); R.errText.assign( S->errTxt, S->errLen );
	R.hash=x;
	g_stats.execs++; g_stats.steps+=R.steps; g_stats.accesses+=R.accesses; g_stats.allocs+=R.allocs; g_stats.faults+=R.faults; g_stats.switches+=R.switches;
	if( !R.done ) g_stats.crashes++;
	for( int i=0; i<IO_NKIND; i++ ) g_stats.io[i]+=R.ioFired[i];
	return R;
}

} // namespace sim
