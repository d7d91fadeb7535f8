// Drives a model of the library and a reference model side by side through
// generated histories, and compares what the library answers with the
// reference.
#pragma once
#include "engine.h"
#include "ref.h"

#include <EasyFactorGraph/model/ConditionalRandomField.h>
#include <EasyFactorGraph/model/Graph.h>
#include <EasyFactorGraph/model/RandomField.h>

#include <memory>

namespace wld {
using namespace EFG;
using categoric::VariablePtr;
using FacPtr = std::shared_ptr<factor::Factor>;
using ExpPtr = std::shared_ptr<factor::FactorExponential>;

std::string fmt(float v);
std::string fmt(const std::vector<float> &v);
std::string fmt(const std::vector<double> &v);
std::string fmt(const std::vector<std::size_t> &v);

// allocates and frees some memory, so that the addresses of what is allocated
// next vary between cases
void perturbHeap(pbt::Src &s);

std::vector<std::string> genNames(pbt::Src &s, std::size_t n,
                                  bool exotic = false);

enum class Images {
  POSITIVE, // bounded positive values
  ZEROS,    // some null values
  WIDE,     // several orders of magnitude
  WEAK,     // close to each other, in [0.75, 1.33]
  MILD      // in [0.4, 2.5]
};

float genImage(pbt::Src &s, Images kind);
// a table of raw values; at least one is positive
std::vector<float> genTable(pbt::Src &s, std::size_t n, Images kind);
// raw values for an exponential factor
std::vector<float> genExpTable(pbt::Src &s, std::size_t n, float maxv = 2.f);

// fills a factor setting combinations in a generated order, through a
// generated sequence of set() calls whose final effect is the table
FacPtr buildFactor(pbt::Src &s, const std::vector<VariablePtr> &vars,
                   const std::vector<float> &table);

struct Options {
  bool tunable = true;     // use a RandomField, with tunable factors
  bool tunableOften = false; // most of the factors are tunable
  std::size_t maxVars = 7; // size of the pool of variables
  std::size_t maxSize = 4; // maximum domain size
  unsigned loops = 1;      // out of 8: accept edges closing a loop
  bool zeros = true;       // accept null images
  bool wide = false;       // accept images of very different magnitude
  bool weak = false;       // only weakly informative factors
  bool strongUnaries = false; // with weak: only the binary factors are weak
  bool exoticNames = false;
  float maxWeight = 2.5f;
  bool evidence = true;
  bool large = true; // rarely more, or bigger, variables
  bool units = false; // rarely images expressed in very different units
  bool huge = false; // rarely a variable with tens of values
  bool hundreds = false; // with huge: or hundreds of them
};

class World {
public:
  World(pbt::Case &c, const Options &o);

  // ---- mutating steps: applied to both the model and the reference
  bool addUnary();
  bool addBinary();
  bool addEvidence();
  bool updateEvidence();
  bool removeOne();
  bool removeSome();
  bool removeAll();
  bool changeWeights();
  // one of the above
  bool mutate();
  // queries whose answer is thrown away
  void noise();

  // adds factors until the model has at least n variables
  void grow(std::size_t n);

  // replaces the pool of variables and builds a tree where one or two
  // variables have many neighbours, with images far from 1; some evidences
  void buildHub();
  // replaces the pool of variables and builds a forest of long chains and
  // wide trees; some evidences. Returns some of the variables
  std::vector<int> buildForest(std::size_t maxVars = 130);

  // replaces the evidences with a generated set a conditional model can be
  // built with: every tunable factor has an hidden variable. False if none is
  // found
  bool observeForConditional(bool hiddenTrees);

  // ---- checks against the reference
  void checkMarginal(int v, std::size_t threads = 1);
  void checkAllMarginals(std::size_t threads = 1);
  void checkMap(int v, std::size_t threads = 1);
  void checkHiddenMap(std::size_t threads = 1);
  void checkJoint(std::size_t threads = 1); // a generated subgroup
  void checkGradient(std::size_t threads = 1); // on a generated train set
  void checkGradient(const train::TrainSet::Iterator &it, std::size_t threads);
  train::TrainSet genTrainSet();
  void checkState();
  void checkPropagationResult(strct::PropagationKind kind);
  void checkWeights();

  std::size_t genThreads();

  // insertion of a given factor. vars: indexes in the pool
  void insert(const std::vector<int> &poolVars, std::vector<float> table,
              bool expo, float w, bool tunable, int shareWithCluster);

  // ---- data
  pbt::Case &c;
  pbt::Src &s;
  Options opt;
  ref::Model ref;
  struct PoolVar {
    VariablePtr ptr;
    int inModel = -1; // index in ref.vars
  };
  std::vector<PoolVar> pool;

  std::unique_ptr<model::Graph> graph;
  std::unique_ptr<model::RandomField> field;

  strct::EvidenceSetter &setter();
  strct::EvidenceRemover &remover();
  strct::FactorsConstInserter &inserter();
  strct::GibbsSampler &sampler();
  strct::QueryManager &query();
  strct::FactorsAware &factors();
  train::FactorsTunableInserter &tunables();

  int sharing = 0;
  int genShare(); // the cluster to share the weight with, or -1
  bool star = false; // a variable tends to be connected to all the others
  std::size_t mutations = 0;
  std::size_t checks = 0;
  std::size_t exactChecks = 0;

  // for every cluster of the library, the matching cluster of the reference
  std::vector<std::size_t> clusterOrder() const;
  int findTunable(const factor::Immutable &f) const;

private:
  int registerVar(int poolIndex);
  VariablePtr var(int v) const { return ref.vars[v].ptr; }
};

std::vector<ExpPtr>
clusterMembers(const std::variant<train::FactorExponentialPtr,
                                  train::TunableClusters> &cl);
int findTunable(const ref::Model &ref, const factor::Immutable &f);
std::vector<std::size_t> clusterOrder(const ref::Model &ref,
                                      const train::FactorsTunableGetter &m);

// |a - b| small both in absolute and relative terms
bool close(double a, double b, double rel = 1e-3, double abs = 1e-7);
void compareDistribution(const std::vector<float> &got,
                         const std::vector<double> &expected,
                         const std::string &what, double rel = 1e-3,
                         double abs = 1e-7);
void compareGradient(const std::vector<float> &got,
                     const std::vector<double> &expected,
                     const std::string &what);
// sums to one, no negative or not finite value
void checkIsDistribution(const std::vector<float> &p, std::size_t size,
                         const std::string &what);

// loopy propagation on the hidden part is a strong contraction: it converges
// to a unique fixed point, whatever the order of the messages
bool weaklyCoupled(const ref::Model &m, double limit = 0.4);

// fixed point of the sum (or max) product message passing over the hidden
// variables, computed by the reference. Beliefs of the hidden variables, empty
// when the fixed point is not reached
std::map<int, std::vector<double>> loopyBeliefs(const ref::Model &m,
                                                bool maximise = false);

// inserts the content of a reference model into a library model, in a
// generated order. The variables can be different instances
struct Rebuilt {
  std::unique_ptr<model::Graph> graph;
  std::unique_ptr<model::RandomField> field;
  std::vector<VariablePtr> vars; // matching the ones of the reference

  strct::QueryManager &query();
  strct::GibbsSampler &sampler();
  strct::FactorsAware &factors();
};
Rebuilt rebuild(pbt::Src &s, const ref::Model &m, bool asField,
                bool newVariables);

// a description of a reference model
std::string describe(const ref::Model &m);

// expected gradient of the log likelihood of the tunable clusters.
// conditioned: the evidences are, for each sample, the values of the variables
// in `observed`
std::vector<double>
expectedGradient(const ref::Model &m,
                 const std::vector<std::vector<std::size_t>> &samples,
                 const std::vector<int> &observed, bool conditioned);
} // namespace wld
