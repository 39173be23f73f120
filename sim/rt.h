// Simulator runtime: plan, executor, result. Uninstrumented code.
#pragma once
#include "api.h"
#include <string>
#include <vector>
#include <map>

namespace sim {

// ---------------------------------------------------------------------------- PRNG
struct Rng
{
	uint64_t s;
	explicit Rng( uint64_t seed=1 ): s(seed) { next(); next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
	int range( int a, int b ) { return a + (int)below( (uint64_t)(b-a+1) ); }
	double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
	bool chance( double p ) { return unit() < p; }
};
inline uint64_t mix( uint64_t a, uint64_t b ) { Rng r( a*0x9E3779B97F4A7C15ull ^ b ); r.next(); return r.next(); }

// ---------------------------------------------------------------------------- plan
struct PArg { char t='x'; int slot=0; double num=0.; std::string str; };

struct POp
{
	int op = -1;
	std::vector<PArg> a;
	int  fault   = 0;      // >0: allocation number `fault` of this operation fails
	int  fmode   = 0;      // 0: that one only, 1: all from there on
	bool retry   = false;  // if it throws, run it once more without fault
	int  lim     = -1;     // >=0: the printing stream fails after so many characters
	int  limMode = 0;      // 0: short count, 1: the stream buffer throws
	int  fmt     = 0;      // initial format state of the printing stream
	int  tu      = 0;      // 1: executed from the second source file, if there is one
	int  tag     = 0;      // used by the checks (role of the operation)
};

struct IoFault { int nth=0; int kind=0; int arg=0; };   // nth call of that kind during file operations
enum IoKind { IO_OPEN=0, IO_WRITE=1, IO_CLOSE=2, IO_RENAME=3, IO_SYNC=4, IO_READ=5, IO_IMWRITE=6, IO_CAP=7, IO_NKIND=8 };
struct Preempt { int thread=0; uint64_t at=0; int to=0; };

constexpr int NPROG = 5;   // 0: setup, 1..3: threads, 4: afterwards
constexpr int PROG_POST = 4;

struct Plan
{
	std::string prop, universe = "d", variant;
	uint64_t seed = 0;
	std::vector<POp> prog[NPROG];
	bool     seq = false;        // threads run one after the other
	int      only = 0;           // >0: run only that thread
	uint64_t fill = 0;           // content of fresh memory and stack
	int      shift = 0;          // displacement of heap addresses
	uint64_t rnd = 1;
	int      rndMode = 0;
	int64_t  clock = 1700000000;
	int      locale = 0;         // global C++ locale
	int      clocale = 0;        // simulated C locale (decimal comma) for number parsing
	std::vector<IoFault> io;
	bool     search = false;     // scheduler draws the preemptions
	uint64_t sched = 0;
	int      gap = 200;
	std::vector<Preempt> pre;
	uint64_t budget = 0;
	uint64_t stack = 0;          // stack space an operation may use (bytes), 0: no limit
	int nthreads() const { int n=0; for( int i=1; i<=3; i++ ) if( !prog[i].empty() ) n=i; return n; }
};

std::string toText( const Plan& );
Plan fromText( const std::string& );

// ---------------------------------------------------------------------------- result
struct Tok { TokType t; long double v=0; std::string s; };

enum St { ST_OK=0, ST_BADALLOC=1, ST_RUNTIME=2, ST_LOGIC=3, ST_STDEXC=4, ST_OTHEREXC=5, ST_UNFINISHED=6, ST_FAILURE=7 };
const char* stName( int );

struct OpRes
{
	int      prog=0, idx=0;
	int      st = ST_UNFINISHED;
	bool     isRetry=false;
	uint64_t steps=0, allocs=0, stack=0;
	int      faultsFired=0;
	long     err=0, warn=0;         // counter increments (single-threaded phases)
	int      outBytes=0, errBytes=0;// bytes on standard streams
	bool     fmtChanged=false;      // format state of the printing stream changed
	bool     stdFmtChanged=false;
	int      streamState=0;
	std::string printed;            // what the printing stream received
	std::string what;
	std::vector<Tok> tok;
};

struct Race { std::string a, b, where; bool heap=false; };

struct Result
{
	bool done=false;            // program ran to its end
	std::string death;          // otherwise: what ended it
	std::string deathOp;
	std::string memerr;         // memory error found by the checker
	std::vector<OpRes> ops;
	std::vector<Race> races;
	std::vector<Preempt> trace; // preemptions that took place
	uint64_t liveEnd=0, liveBytes=0;
	uint64_t steps=0, accesses=0, allocs=0, faults=0, switches=0;
	uint64_t hash=0;            // everything observable
	uint64_t schedHash=0;
	long     errTotal=0, warnTotal=0;
	int      ioFired[IO_NKIND]={0}, ioCalls[IO_NKIND]={0};
	std::map<std::string,std::string> files;   // the simulated disk at the end
	std::string outText, errText;
	const OpRes* find( int prog, int idx, bool retry=false ) const
	{
		for( auto& o: ops ) if( o.prog==prog && o.idx==idx && o.isRetry==retry ) return &o;
		return nullptr;
	}
};

// runs a plan in a fresh child process
Result execute( const Plan& );
void   rtInit();

const std::vector<const Universe*>& universes();
const Universe* findUniverse( const std::string& );
const Universe* secondOf( const Universe* );   // nullptr: none
int findOp( const Universe*, const std::string& name );

// counters kept over all executions of this process
struct Stats { uint64_t execs=0, steps=0, accesses=0, allocs=0, faults=0, switches=0, crashes=0, io[IO_NKIND]={0}; };
extern Stats g_stats;

} // namespace sim
