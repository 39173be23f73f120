// Driver: plan generation, checks, search, minimisation.
#pragma once
#include "rt.h"
#include <functional>
#include <optional>
#include <set>

namespace sim {

// ---------------------------------------------------------------- operation signatures
struct SpecArg { char t; bool mod; };
const std::vector<SpecArg>& specOf( const Universe*, int op );
inline bool isObj( char t ) { return t>='A' && t<='Z'; }
inline unsigned flagsOf( const Plan& p, const POp& o ) { return findUniverse(p.universe)->ops[o.op].flags; }
inline std::string nameOf( const Plan& p, const POp& o ) { return findUniverse(p.universe)->ops[o.op].name; }

// ---------------------------------------------------------------- generation
struct Gen
{
	const Universe* u;
	Rng&  r;
	int   regime;       // kind of coordinates
	double bad = 0.03;  // probability of invalid arguments
	double big = 0.;    // probability of long lists
	Gen( const Universe* u_, Rng& r_ );
	double coord();
	double radius();
	double number( char t );
	std::string coordList( int minN=0, int maxN=9, bool simple=false );
	std::string text( const std::string& opName, int argIdx );
	PArg  arg( const SpecArg&, int bank, const std::string& opName, int k );
	POp   op( int idx, int bank );
	POp   op( const char* name, int bank );
	POp   opArgs( const char* name, std::vector<PArg> );
	void  initObj( std::vector<POp>&, char t, int slot, int depth=0 );
	void  setup( Plan& );      // prepends the construction of every object used anywhere in the plan
	bool  has( const char* n ) { return findOp(u,n)>=0; }
	// candidate operations
	std::vector<int> select( std::function<bool(const OpDesc&,const std::vector<SpecArg>&)> );
	int   pick( const std::vector<int>& v ) { return v[ r.below(v.size()) ]; }
	std::string svgElement( int damage );
	std::string svgDoc( int damage );
	std::string pathData( int damage );
	std::string pointsData( int damage );
	std::string mutate( std::string s, int n );
};
PArg argO( char t, int slot );
PArg argN( char t, double v );
PArg argS( char t, const std::string& );
std::set<std::pair<char,int>> objectsOf( const Plan&, const std::vector<POp>& );
std::set<std::pair<char,int>> objectsOf( const Plan& );
Plan perturb( const Plan&, double rel, Rng& );

// ---------------------------------------------------------------- comparison of outputs
bool same( const OpRes&, const OpRes& );                            // exactly
bool close( const OpRes&, const OpRes&, double tol, double scale ); // numbers up to rounding
std::string show( const OpRes& );
double scaleOf( const Plan& );

// ---------------------------------------------------------------- checks
struct Violation
{
	std::string cls;      // kind of violation, stable under minimisation
	std::string sig;      // what known findings are matched against
	std::string text;     // description
	Plan plan;            // the failing plan (may be more specific than the one checked)
};
typedef std::optional<Violation> Verdict;

struct Coverage      // kept by each worker
{
	uint64_t plans=0, evals=0, discarded=0, ops=0, opsThrew=0, faultPoints=0, unstable=0, known=0;
	uint64_t execs=0, steps=0, accesses=0, allocs=0, faults=0, switches=0, crashes=0, io[IO_NKIND]={0};
	uint64_t probe[32]={0};
	uint64_t detOk=0, detBad=0;
	uint64_t nh=0;
};
extern Coverage* g_cov;
void noteHash( uint64_t );       // a distinct behaviour
void probe( int k );

struct Check
{
	const char* id;
	const char* level;
	const char* rule;
	const char* faults;
	std::vector<const char*> probes;
	Plan (*gen)( Rng&, uint64_t index );
	Verdict (*check)( const Plan& );
	bool gateClassOnly;
};
const Check* findCheck( const std::string& );
bool isKnown( const std::string& prop, const std::string& sig );
} // namespace sim
