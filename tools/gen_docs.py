#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of their text)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "src/header/EasyFactorGraph/"
S = "src/src/"

# id, title, statement, over, quantifier text, why tests can't, files, mechanism [(name, where)], observe_at, technique, note
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext,
                  why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note))


prop("C01", "Exact marginals on models without loops",
     "Whenever the hidden variables of a model form trees (after disconnecting the observed ones), the marginal returned for a hidden variable is its exact conditional distribution given the current evidences: non negative, summing to one, with the values in the order of the domain. "
     "This holds whatever sequence of insertions of factors (constant, exponential or tunable, unary or binary, with the variables in either order, with null or very different images, before or after evidences are set), evidence changes, weight changes and previous queries led to the model, and however many neighbours a variable has.",
     ["histories", "inputs"],
     "all histories of insertions, evidences, weights and queries; all tree shaped hidden parts; all factor tables with a possible evidence",
     "The tests compare a handful of fixed graphs with symmetric factors; they never vary the order of the operations, the orientation of the factors or the degree of the variables.",
     [S + "structure/QueryManager.cpp", S + "structure/BaselineLoopyPropagator.cpp", S + "structure/bases/BeliefAware.cpp", S + "structure/bases/StateAware.cpp", S + "structure/SpecialFactors.cpp", S + "structure/EvidenceManager.cpp", S + "structure/bases/FactorsAware.cpp"],
     [("message passing over each hidden cluster", S + "structure/BaselineLoopyPropagator.cpp"), ("messages of binary factors and evidences", S + "structure/SpecialFactors.cpp"), ("caches of the merged unary factors and of the belief, reset on changes", S + "structure/bases/FactorsAware.cpp")],
     ["QueryManager::getMarginalDistribution", "GibbsSampler/Graph/RandomField instances"],
     "stateful property-based testing against a reference model (exact variable elimination)",
     "Generated histories, compared after every few steps with variable elimination in double precision (tolerance 1e-3 relative). Assurance is that of the generated cases; models up to 7 variables of up to 4 values, hubs with up to about 60 neighbours.")

prop("C02", "Exact maximum a posteriori estimates on models without loops",
     "Whenever the hidden variables form trees, the maximum a posteriori value returned for a hidden variable maximises its max-marginal given the evidences, and the assignment returned for the whole hidden set lists one value for each hidden variable, in the order in which the hidden variables are reported, each being such a maximiser. "
     "It holds for every history of insertions, evidences, weights and previous queries of any kind.",
     ["histories", "inputs"],
     "all histories; all tree shaped hidden parts; all factor tables",
     "The tests check the estimate on a few fixed graphs, never after other kinds of queries or after changes of evidences and weights.",
     [S + "structure/QueryManager.cpp", S + "structure/SpecialFactors.cpp", S + "structure/BaselineLoopyPropagator.cpp"],
     [("max product messages", S + "structure/SpecialFactors.cpp"), ("kind of the propagation done compared with the requested one", S + "structure/bases/BeliefAware.cpp")],
     ["QueryManager::getMAP", "QueryManager::getHiddenSetMAP"],
     "stateful property-based testing against a reference model (exact max elimination)",
     "Values whose max-marginal is within 0.1% of the best are all accepted. Assurance is that of the generated cases.")

prop("C03", "Exact joint distributions of groups of variables",
     "On models without loops the joint distribution returned for a group of variables is the exact one given the evidences, over the variables in the requested order, summing to one, and null for the combinations contradicting the evidences of observed variables in the group. "
     "It holds for every history of the model and however many neighbours the variables of the group have.",
     ["histories", "inputs"],
     "all histories, all groups (any order, with hidden and observed variables) whose hidden variables of a same component are connected inside the group",
     "The tests ask for one or two groups on a fixed chain, without evidences in the group.",
     [S + "structure/QueryManager.cpp", S + "structure/SpecialFactors.cpp"],
     [("product of the factors inside the group and of the messages from outside", S + "structure/QueryManager.cpp")],
     ["QueryManager::getJointMarginalDistribution"],
     "stateful property-based testing against a reference model (exact variable elimination)",
     "Groups follow the documented meaning (sub graphs). Tolerance 1e-3. Assurance is that of the generated cases.")

prop("C04", "Answers depend on the content of a model, not on its history",
     "Two models with the same factors, weights and evidences give the same answers (marginals, estimates, joint distributions, gradients), whatever the order in which factors were inserted, evidences set, updated and removed, weights changed and previous queries done. "
     "In particular setting and then removing evidences, or changing and restoring weights, gives back the original answers.",
     ["histories"],
     "all histories leading to the same content",
     "Tests build each model once and in one way.",
     [S + "structure/EvidenceManager.cpp", S + "structure/bases/FactorsAware.cpp", S + "structure/bases/StateAware.cpp", S + "structure/bases/BeliefAware.cpp", S + "trainable/FactorsTunableManager.cpp"],
     [("evidence insertion and removal splitting and merging hidden clusters", S + "structure/EvidenceManager.cpp"), ("belief invalidation", S + "structure/bases/BeliefAware.cpp")],
     ["queries and gradients of a model and of a model rebuilt from scratch"],
     "stateful metamorphic testing: evolved model against rebuilt model",
     "On loops the comparison is done only when propagation is a contraction. Assurance is that of the generated cases.")

prop("C05", "The model reports its variables, factors, evidences and clusters",
     "At every point of every history the model lists exactly the inserted variables, factors and current evidences, splits the variables into hidden and observed ones, and finds variables by name. "
     "The report of a propagation lists one structure for each connected component of the hidden variables, with its size and whether it is a tree, together with the kind of propagation done.",
     ["histories"],
     "all histories of insertions, evidences and removals, with and without loops",
     "Tests inspect the clusters after two or three fixed evidences.",
     [S + "structure/EvidenceManager.cpp", S + "structure/bases/StateAware.cpp", S + "structure/bases/FactorsAware.cpp", S + "structure/Types.cpp", S + "structure/bases/BeliefAware.cpp"],
     [("clusters of hidden variables", S + "structure/Types.cpp"), ("evidence bookkeeping", S + "structure/EvidenceManager.cpp")],
     ["getters of the model", "getLastPropagationResult"],
     "stateful property-based testing against a reference model (connected components)",
     "Assurance is that of the generated cases.")

prop("C06", "Invalid operations are refused and leave the model unchanged",
     "An operation with invalid arguments (unknown or already known variables and factors, variables with a used name, factors over none or too many variables, values out of the domain, pairs connected twice, evidences not set, unknown sharing groups, wrong number of weights, samples or gradients with 0 threads) throws. "
     "After the exception the model has the same content and gives the same answers as before.",
     ["histories", "fault_sequences"],
     "all histories interleaved with invalid operations",
     "Tests check that some of the operations throw, not what the model is afterwards.",
     [S + "structure/bases/FactorsAware.cpp", S + "structure/EvidenceManager.cpp", S + "trainable/FactorsTunableManager.cpp", S + "structure/QueryManager.cpp", S + "structure/bases/PoolAware.cpp"],
     [("validation before any change", S + "structure/bases/FactorsAware.cpp")],
     ["exceptions, getters and queries after them"],
     "stateful property-based testing with injected invalid operations, against a reference model",
     "Refused means any std::exception. Assurance is that of the generated cases.")

prop("C07", "Propagation over models with loops is sound",
     "Propagating over hidden variables forming loops always terminates and gives proper distributions; when the message passing has a unique attracting fixed point the beliefs returned are the ones of that fixed point, and an estimate over a single loop reported as completed is the exact maximum a posteriori one. "
     "The outcome is reported as completed only when the messages stopped changing, and the budget of iterations and the propagation strategy which were set are the ones used.",
     ["inputs", "configurations"],
     "all models with loops; all budgets of iterations, strategies and thread counts",
     "Tests run three fixed loopy graphs, with symmetric factors, against values obtained with the same library.",
     [S + "structure/BaselineLoopyPropagator.cpp", S + "structure/bases/BeliefAware.cpp", H + "structure/BaselineLoopyPropagator.h"],
     [("loopy propagation with a maximum number of iterations and a stop criterion", S + "structure/BaselineLoopyPropagator.cpp"), ("pluggable propagator", H + "structure/bases/BeliefAware.h")],
     ["queries and the report of the propagation"],
     "property-based testing against an independent message passing oracle and theorems on single loops",
     "Beliefs are compared (tolerance 0.01) only for contractions with factor below 0.45. Assurance is that of the generated cases.")

prop("C08", "Answers do not depend on threads",
     "Marginals, estimates, joint distributions and gradients computed with any number of threads are the ones computed with a single one, up to rounding, also when the number changes between calls. "
     "Distinct models (and factors, train sets, documents) can be used at the same time by distinct threads, getting the answers they would get alone, without data races.",
     ["schedules", "configurations", "histories"],
     "all models, thread counts and schedules of the workers",
     "Tests only time the propagation with several threads on a few graphs.",
     [S + "structure/bases/PoolAware.cpp", S + "structure/BaselineLoopyPropagator.cpp", S + "trainable/FactorsTunableManager.cpp", S + "model/RandomField.cpp", S + "model/ConditionalRandomField.cpp"],
     [("tasks split on a pool with a barrier", S + "structure/bases/PoolAware.cpp"), ("messages recomputed in batches of independent ones", S + "structure/BaselineLoopyPropagator.cpp")],
     ["queries and gradients with several thread counts"],
     "differential property-based testing (1 thread against many), also under ThreadSanitizer",
     "Schedules are those the operating system produces. Assurance is that of the generated cases.")

prop("C09", "The pool runs every task once and waits for all of them",
     "Every task given to a pool of threads is executed exactly once, by a thread whose identifier is below the size of the pool and which no other task has at the same time, and all of them are completed, with their effects visible, when the call returns; this holds for any number of tasks, repeated calls, calls from several threads and nested creation and destruction of pools. "
     "Activating a pool for a scope gives back a single thread at its end, also when an exception is thrown.",
     ["schedules", "histories"],
     "all sequences of calls, numbers of tasks and threads, schedules",
     "One test runs sleeping tasks on a fixed pool and measures the time.",
     [S + "structure/bases/PoolAware.cpp", H + "structure/bases/PoolAware.h"],
     [("workers polling their own queue, barrier at the end", S + "structure/bases/PoolAware.cpp")],
     ["Pool::parallelFor", "PoolAware"],
     "stateful property-based testing of schedules, also under ThreadSanitizer",
     "Schedules are those the operating system produces under contention, not enumerated. Assurance is that of the generated cases.")

prop("C10", "Samples have the requested number, order, spacing and seed",
     "Drawing samples returns exactly the requested number of combinations, each with one value inside the domain for every variable in the order of the model, the observed ones always equal to their evidence. "
     "Repeating the request with the same seed, thread count and model gives the same samples, different seeds give different ones, and a request with another spacing or transient returns the matching sub sequence of the same chain.",
     ["histories", "configurations", "inputs"],
     "all models, evidences, sampling options and thread counts",
     "Tests check the frequencies of one or two models with fixed options.",
     [S + "structure/GibbsSampler.cpp", H + "structure/GibbsSampler.h"],
     [("evolution of the hidden values, transient and spacing", S + "structure/GibbsSampler.cpp")],
     ["GibbsSampler::makeSamples"],
     "stateful property-based and metamorphic testing of the sampler",
     "Assurance is that of the generated cases.")

prop("C11", "Samples follow the distribution of the model",
     "Samples drawn after a transient follow the distribution of the model conditioned to the current evidences: values of single variables and of pairs of variables appear with their exact probabilities (those having a null one never do), also in models with loops, with any thread count and after changes of evidences and weights.",
     ["inputs", "histories", "configurations"],
     "all models on which the chain mixes; all evidences, options, thread counts",
     "Tests look at three small models with a tolerance of 10%.",
     [S + "structure/GibbsSampler.cpp"],
     [("conditional of a variable given its neighbours", S + "structure/GibbsSampler.cpp"), ("independent random numbers for each thread", S + "structure/GibbsSampler.cpp")],
     ["GibbsSampler::makeSamples"],
     "statistical property-based testing with two stage concentration bounds against exact probabilities",
     "Deviations are reported above Bernstein bounds of e^-12 and then e^-16 on an independent run: small biases are not detected. Models where a sweep is a contraction.")

prop("C12", "The gradient of a random field is that of the log likelihood",
     "On random fields without loops the gradient with respect to the weights, on any train set or portion of it, is the derivative of the average log likelihood of the samples: one entry for each weight in the order of the weights, factors sharing a weight being summed; the values of the samples are those of the variables in the order of the model. "
     "It does not depend on the evidences or on what was done before, and asking for it does not alter the weights.",
     ["histories", "inputs"],
     "all tunable models without loops, train sets and histories",
     "Tests compare the gradient with a closed form on one or two factors.",
     [S + "model/RandomField.cpp", S + "trainable/tuners/UnaryTuner.cpp", S + "trainable/tuners/BinaryTuner.cpp", S + "trainable/tuners/BaseTuner.cpp", S + "trainable/tuners/CompositeTuner.cpp"],
     [("difference between the empirical and the expected value of each factor", S + "trainable/tuners/BaseTuner.cpp")],
     ["FactorsTunableGetter::getWeightsGradient"],
     "stateful property-based testing against a reference (exact expectations), and ascent as metamorphic check",
     "Tolerance 1e-3 relative, 2e-4 absolute. Assurance is that of the generated cases.")

prop("C13", "The gradient of a conditional field is that of its conditional likelihood",
     "On conditional random fields whose hidden variables form trees, the gradient is the derivative of the average log likelihood of the hidden values of each sample given its observed values. "
     "Entries are as many and in the order of the weights, factors sharing a weight being summed, whatever samples, evidences and previous operations.",
     ["histories", "inputs"],
     "all conditional models with hidden trees, train sets and histories",
     "Tests check one conditional model with one tunable factor kind.",
     [S + "model/ConditionalRandomField.cpp", S + "model/HiddenObservedTuner.cpp", S + "trainable/tuners/BaseTuner.cpp"],
     [("evidences set sample by sample", S + "model/ConditionalRandomField.cpp"), ("tuners of factors between hidden and observed variables", S + "model/HiddenObservedTuner.cpp")],
     ["FactorsTunableGetter::getWeightsGradient"],
     "stateful property-based testing against a reference (exact conditional expectations)",
     "Tolerance 1e-3 relative, 2e-4 absolute. Assurance is that of the generated cases.")

prop("C14", "Conditional models: evidences, train sets and construction",
     "A conditional model keeps the set of observed variables it was built with; a vector of evidences is assigned following the order in which the observed variables are reported, and an invalid vector is refused leaving the evidences as they were. "
     "Train sets generated from it respect the requested range: evidences are distinct combinations spanning at least the requested portion of the possible ones (and, when it is lower than 1, not more than about twice that portion), with the requested number of samples for each. "
     "Building one from a field without evidences is refused.",
     ["inputs", "histories"],
     "all conditional models, evidences, ranges and sampling options",
     "Tests build two conditional models with one or two observed variables.",
     [S + "model/ConditionalRandomField.cpp", H + "model/ConditionalRandomField.h"],
     [("order of the evidences", S + "model/ConditionalRandomField.cpp"), ("span of the combinations of evidences", S + "model/ConditionalRandomField.cpp")],
     ["ConditionalRandomField::setEvidences", "ConditionalRandomField::makeTrainSet"],
     "stateful property-based testing against a reference model",
     "Assurance is that of the generated cases.")

prop("C15", "Weights are read back, shared and effective",
     "Weights of a tunable model are read back exactly as written, in a stable order; factors declared to share a weight always have the same one, equal to that of the cluster they joined, and no other factor does. "
     "After a change every answer of the model, also under evidences, corresponds to the new weights.",
     ["histories"],
     "all histories of insertions (with and without sharing), weights and evidences",
     "Tests set the weights once on a model without evidences.",
     [S + "trainable/FactorsTunableManager.cpp", S + "trainable/tuners/CompositeTuner.cpp", S + "factor/FactorExponential.cpp", S + "structure/bases/FactorsAware.cpp"],
     [("tuners owning the weights", S + "trainable/tuners/CompositeTuner.cpp"), ("caches reset on changes of the weights", S + "structure/bases/FactorsAware.cpp")],
     ["getWeights, setWeights, getTunableClusters, queries"],
     "stateful property-based testing against a reference model",
     "At most one tunable unary factor per variable. Assurance is that of the generated cases.")

prop("C16", "Copies and absorptions are equivalent and isolated",
     "Copying a model, or absorbing it in another one (graph, random field or conditional field as source; deep or shallow copy), gives a model with the same factors, weights, sharing groups and evidences, and the same answers; absorbing in a non empty model gives the union. "
     "Afterwards insertions and evidences of one model do not affect the other, and with deep copies neither do weights.",
     ["histories"],
     "all source models, kinds of copy and subsequent histories of both models",
     "Tests absorb one model in an empty one and count the factors.",
     [S + "model/Graph.cpp", S + "model/RandomField.cpp", S + "model/ConditionalRandomField.cpp", S + "structure/FactorsConstManager.cpp", S + "trainable/FactorsTunableManager.cpp"],
     [("absorption of constant factors and tunable clusters", S + "trainable/FactorsTunableManager.cpp")],
     ["copy constructors, absorb"],
     "stateful differential testing of two models against two reference models",
     "Assurance is that of the generated cases.")

prop("C17", "A model exported to json and imported back is the same model",
     "Exporting any model to json (object, text or file) and importing it into an empty random field gives the same variables, evidences, factors (same variables in the same order, exactly the same images, kind and weight), the same groups of factors sharing a weight and the same list of weights; an empty graph gets the same factors, as constant ones. "
     "Any UTF-8 name is preserved, the exported model is not altered, and importing into a model with other variables only adds the content.",
     ["inputs", "histories"],
     "all models (graphs, random fields, conditional fields), all names and values",
     "The test exports one model with plain names and compares groups of names and weights.",
     [S + "io/json/Exporter.cpp", S + "io/json/Importer.cpp", S + "io/Utils.cpp", H + "io/json/Importer.h", H + "io/json/Exporter.h"],
     [("conversion of each element to strings and back", S + "io/json/Exporter.cpp")],
     ["json::Exporter, json::Importer"],
     "round-trip property-based testing",
     "Exact comparison of the images and weights. At most one tunable unary factor per variable, as the json identifies groups by their variables. Assurance is that of the generated cases.")

prop("C18", "Json documents are imported as documented or refused",
     "Every well formed document yields the model it describes: variables used by potentials, explicit values (last one wins, missing ones null) or simple correlations, weights, tunability, weights shared with a factor listed anywhere, evidences. "
     "A document missing mandatory elements, repeating or not defining variables, with values out of range, of the wrong type, with unknown options or connecting variables twice is refused with an exception; no json value causes undefined behaviour.",
     ["inputs"],
     "all json values",
     "The test imports only what the library exported.",
     [S + "io/json/Importer.cpp", S + "io/Utils.cpp"],
     [("checked access to the elements", S + "io/json/Importer.cpp"), ("delayed insertion of the sharing factors", S + "io/Utils.cpp")],
     ["json::Importer::importFromJson"],
     "grammar based and mutational fuzzing with a semantic oracle, AddressSanitizer",
     "Numbers are decimal strings. Assurance is that of the generated cases.")

prop("C19", "A factor is a map from combinations to images",
     "After any sequence of assignments, clears and copies, a factor returns for each combination of its variables the last image set (null if none), through every way of reading it: single look-ups, visits of all or of the non null combinations, finders built on larger groups of variables, probabilities. "
     "An exponential factor returns exp(weight * image); invalid combinations and images (negative or not a number) are refused without changing it, and copies are independent.",
     ["histories", "inputs"],
     "all sequences of operations, domain sizes and densities",
     "Tests read a few combinations of two small factors.",
     [S + "factor/Function.cpp", S + "factor/Factor.cpp", S + "factor/Mutable.cpp", S + "factor/FactorExponential.cpp", S + "factor/ImageFinder.cpp", S + "factor/Immutable.cpp", H + "factor/Function.h"],
     [("sparse or dense storage chosen by density", S + "factor/Function.cpp")],
     ["Factor, FactorExponential, ImageFinder"],
     "model-based stateful testing against a plain map",
     "Assurance is that of the generated cases.")

prop("C20", "Products, permutations, clones and correlations of factors",
     "The product of factors has, for every combination of the union of their variables, the product of their images, and the probabilities returned are those images normalised. "
     "Permuting or replacing variables keeps every image attached to the same values, clones are equal and independent, and correlating (anti correlating) factors have image one (zero) exactly where all values are equal.",
     ["inputs"],
     "all groups of factors, orders of the variables and domain sizes",
     "Tests multiply two fixed factors.",
     [S + "factor/Factor.cpp", S + "factor/FactorExponential.cpp", S + "factor/ImageFinder.cpp", S + "factor/Immutable.cpp"],
     [("finders of the combinations of sub groups", S + "factor/ImageFinder.cpp")],
     ["Factor constructors and clones"],
     "property-based testing of algebraic laws against direct computation",
     "Tolerance 1e-4 relative. Assurance is that of the generated cases.")

prop("C21", "Groups have distinct names and their range spans the joint domain once",
     "A group of variables never holds two variables with the same name, keeps their order, reports the product of their sizes, and refuses invalid changes without being altered. "
     "Iterating the range of a group visits every combination of the joint domain exactly once, with the last variable changing fastest, and can be restarted; two ranges over the same domain are equal exactly when they are at the same combination; variables without a name or values are refused.",
     ["inputs", "histories"],
     "all groups and sequences of changes",
     "Tests iterate two fixed groups.",
     [S + "categoric/Group.cpp", S + "categoric/GroupRange.cpp", S + "categoric/Variable.cpp"],
     [("uniqueness of the names", S + "categoric/Group.cpp"), ("increment of the combination", S + "categoric/GroupRange.cpp")],
     ["Group, GroupRange, Variable"],
     "model-based stateful testing against plain lists and odometers",
     "Assurance is that of the generated cases.")

prop("C22", "Train sets hold, visit and import exactly the given samples",
     "A train set holds exactly the given combinations, refusing empty or irregular ones; its iterators, which stay valid after the set is gone, visit all of them in order or, for a portion between 0 and 1, the rounded down number of samples, taken evenly from the set, invalid portions being refused. "
     "Importing a text file with one combination per row (any blanks, with or without a final newline) gives those combinations, and missing, empty or irregular files are refused.",
     ["inputs"],
     "all combinations, portions and files",
     "No test reads a file nor checks which samples a portion has.",
     [S + "trainable/TrainSet.cpp", H + "trainable/TrainSet.h", S + "io/TrainSetImport.cpp", S + "io/Utils.cpp"],
     [("subset of indices", S + "trainable/TrainSet.cpp"), ("parsing of the rows", S + "io/TrainSetImport.cpp")],
     ["TrainSet, TrainSet::Iterator, import_train_set"],
     "property-based testing against plain lists, fuzzing of the text import",
     "Assurance is that of the generated cases.")

prop("C23", "Training works on the weights and the gradient of the model",
     "Training gives to the trainer the current weights of the model, applies to the model the weights it sets, and gives it the gradient of the cost (minus the gradient of the average log likelihood) for the current weights on the train set or, with a portion lower than one, on samples drawn again for every gradient; it works with any number of threads, for random and conditional random fields. "
     "Afterwards, also when the trainer throws, the model has the last weights set and answers accordingly; invalid portions and 0 threads are refused.",
     ["histories", "inputs", "configurations"],
     "all tunable models, train sets, portions, thread counts and sequences of requests of the trainer",
     "The tests train four fixed models with a library which is missing offline.",
     [S + "trainable/ModelTrainer.cpp", H + "trainable/ModelTrainer.h", S + "model/RandomField.cpp", S + "model/ConditionalRandomField.cpp", S + "trainable/TrainSet.cpp"],
     [("adapter between the model and the trainer", S + "trainable/ModelTrainer.cpp")],
     ["train::train_model, with a scripted trainer"],
     "stateful property-based testing with a scripted trainer against a reference (exact expectations)",
     "The interface of the external training library is a stand-in (harness/stubs): its algorithms are not exercised. Models without loops in the hidden part. Assurance is that of the generated cases.")

prop("C24", "Models survive xml, and xml documents are read as documented",
     "Exporting any model to xml (text or file) and importing it back gives the same variables, evidences, factors (exactly the same images, kind and weight) and groups of factors sharing a weight, up to the order of the variables inside a factor; a graph gets the tunable factors as constant ones. "
     "Documents with explicit values, simple correlations, files of values beside the document (however its path is given), weights, tunability, shared weights and evidences give the model they describe; those with missing or repeated variables, values out of range, unknown options or missing files are refused.",
     ["inputs", "histories"],
     "all models; all documents",
     "One test, which can not run offline, exports one model and compares names and weights.",
     [S + "io/xml/Exporter.cpp", S + "io/xml/Importer.cpp", S + "io/Utils.cpp", H + "io/xml/Importer.h", H + "io/xml/Exporter.h"],
     [("conversion of each element to tags and back", S + "io/xml/Exporter.cpp"), ("files of values", S + "io/Utils.cpp")],
     ["xml::Exporter, xml::Importer"],
     "round-trip property-based testing, grammar based generation of documents with a semantic oracle",
     "The external xml parser is a stand-in with the same interface (harness/stubs), hence names are plain and the text itself is not judged. Assurance is that of the generated cases.")

NA = []


def na(id, title, statement, why, files, reason):
    NA.append((dict(id=id, title=title, statement=statement,
                    quantifier=dict(over=["inputs"], text="all models"),
                    why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=title, where=files[0])], hook_needed=None)),
               reason))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
        for p, _ in NA:
            f.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="python3 /verif/check.py --build-all",
               checks=[dict(property=p["id"],
                            quick_cmd=f"python3 check.py {p['id']} quick",
                            thorough_cmd=f"python3 check.py {p['id']} thorough",
                            evidence_file=f"evidence/{p['id']}.json",
                            technique=p["technique"], level="exploration",
                            level_note=p["note"]) for p in P],
               not_applicable=[dict(property=p["id"], reason=r) for p, r in NA],
               notes="No hooks in /repo: the harness drives the public interface. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
