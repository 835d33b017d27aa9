"""The properties, how each is decided, and what is trusted.  gen.py writes properties.jsonl
and MANIFEST.json from this file; check.py takes rule, bounds and assumptions from it."""
S = "CoarseGrainSites/src/libmythical/"
I = "CoarseGrainSites/include/mythical/"
SYS, BAS, CLU, SIT, TOP = S + "coarsegrainsystem.cpp", S + "basin_explorer.cpp", S + "topologyfeatures/cluster.cpp", S + "topologyfeatures/site.cpp", S + "topologyfeatures/topology_feature.cpp"
RC, SC, CC, Q, W, LAT, MAR = S + "rate_container.cpp", S + "site_container.cpp", S + "cluster_container.cpp", S + "queue.cpp", S + "walker.cpp", S + "charge_transport/cuboid_lattice.cpp", S + "charge_transport/marcus.cpp"
IDE = S + "identity.hpp"

A_UGLY = "the UGLY graph library the system is written against is not available offline; /verif/standin/UGLY supplies the four calls it uses (directed edges and graphs, edge-first exploration in order of weight, shortest path between every pair), written from the way the library is used and documented"
A_RNG = "std::mt19937 and the uniform distributions are replaced at compile time by types whose values the explorer chooses (harness/rng_shim.hpp); the source of the library is not edited"
A_GRID = "probabilities and mean times are measured by executing the code for every value of an evenly spaced grid of draws, so they are resolved to one grid step"
A_SC = "clusters are strongly connected and have at least one rate off the cluster; rates are positive and finite; no rate from a site to itself"
A_DRAIN = "a walker that comes to a site without outgoing rates (a drain) is taken out before its next hop"
A_FP = "double arithmetic of this compiler; quantities are compared within a relative tolerance, orders and counts exactly"

HIST_RULE = ("Every configuration is a site graph (8 shapes of 3 to 8 sites x all assignments of the rate levels 1e6, 1e3, 1 to the edges of the "
  "smaller shapes x symmetric, uphill, one-way rates; and 8 hand-made ones with nested basins, bridges, plateaus too large to lump, drains); 1, 2 or 3 walkers; "
  "iteration threshold 0, 1 or 2; time resolution 1e3, 1e-2, 1e-5. Inside one, every sequence of operations (place, hop, remove, put back, on any walker) "
  "and every value of the draws (2, for one walker 3) is executed on the real CoarseGrainSystem, depth first, cut at states reached before with at least as many steps left. "
  "After every operation the public observations are compared with an independent reference model of the lumping, and the monitors of this property are evaluated.")
HIST_BOUNDS = "up to 8 sites, 3 walkers, 3 to 6 operations (thorough 5 to 8) after placing the walkers, 2 or 3 values per draw, at most 2 removals per history; in addition histories of 120 (some 1100) hops in which the draws repeat a word, every word of up to 3 (thorough 4) draws from 3 values; crowds of 4 to 23 walkers on 6 landscapes of 24 to 36 sites, 300 (thorough 1500) hops, every word of up to 2 (thorough 3) draws"
CLU_RULE = ("Every strongly connected directed graph on 2, 3 and (all in thorough, a fixed stride in quick) 4 members with rates from a table, larger rings, paths, stars, complete graphs up to "
  "12 members, x 7 patterns of rates off the cluster. ")


def P(id, title, statement, over, qtext, why, files, mech, modules, rule, bounds, assume, note, state=None, observe=None, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, modules=modules,
             rule=rule, bounds=bounds, assumptions=assume, note=note, state=state or [], observe=observe or [])
    d.update(kw)
    return d


SPEC = [
P("C01", "Exclusion: a site never holds two walkers, and hops go where they were announced",
  "In every history of placing, hopping and removing walkers, no two walkers in the system ever occupy the same site, and a hop either moves the walker to the site it announced beforehand or, when that site is taken, leaves it where it is. A site on which no walker stands can be entered, and a walker standing on a site, whether alone or in a cluster, blocks every other walker until it hops away or is removed. A hop or removal of one walker never changes the site, the announced site or the dwell time of another.",
  ["histories", "schedules", "inputs"], "every order in which the walkers are hopped, removed and put back, every outcome of the random draws, with and without clusters forming in between",
  "The tests hop a few walkers along one seeded path; the order of hops between walkers, hops blocked inside a cluster and clusters formed around a standing walker are not reached.",
  [SYS, SC, CLU, SIT], [("hop: occupied check, vacate, occupy, removeWalker", SYS + ":hop"), ("occupancy flag of sites", SIT), ("cluster delegates occupancy to its sites", CLU)],
  ["system"], HIST_RULE, HIST_BOUNDS, [A_UGLY, A_RNG, A_DRAIN, A_FP], "walkers are placed by the user on distinct sites; the model follows hop()'s contract"),
P("C02", "Clusters are disjoint, only grow, and are the same from the side of the sites",
  "At every moment the clusters the system reports are pairwise disjoint, have at least two sites, contain only sites of the system, and the cluster reported for a site is exactly the one whose list contains it (none when in no list). Sites once in a common cluster stay in a common cluster for the rest of the simulation; lumping never loses a site, and merged clusters keep one of their ids. Every reported cluster has exactly one resolution and one time increment, both positive.",
  ["histories", "inputs", "configurations"], "every sequence of hops, removals and draws that makes clusters appear, grow and merge, on every rate graph within the bounds",
  "The tests look at the clusters of a handful of fixed systems after one seeded run; merges of clusters with clusters, and of clusters grown in different orders, never occur in them.",
  [SYS, CC, SC], [("createCluster_, mergeSitesAndClusters_, getFavoredClusterId_", SYS), ("cluster id per site", SC)],
  ["system"], HIST_RULE, HIST_BOUNDS, [A_UGLY, A_RNG, A_DRAIN, A_FP], "reference model of the lumping follows the partition exactly"),
P("C03", "A walker in the system always has a finite dwell time and a reachable next site",
  "After a walker is placed and after each of its hops it has a finite dwell time greater than zero and an announced next site, for every outcome of the random draws. The announced site is a site of the system that can be reached by one rate from the site the walker stands on or, if it stands in a cluster, a member of the cluster or a site reachable by one rate from a member. Nothing the library does for such a walker throws, aborts or fails to return.",
  ["histories", "inputs"], "every draw, including the ends of the unit interval; every history within the bounds",
  "Seeded generators almost never return a draw of exactly 0 or just below 1 and tests see only the few sites the seed leads to.",
  [SYS, SIT, CLU], [("getDwellTime, pickNewSiteId of sites", SIT), ("getDwellTime, pickNewSiteId of clusters", CLU), ("initializeWalkers, hop", SYS)],
  ["system"], HIST_RULE + " Draws include 0 and the largest double below 1 in the site and cluster harnesses (C09 to C14).", HIST_BOUNDS, [A_UGLY, A_RNG, A_DRAIN, A_FP], "crashes, asserts, sanitizer reports and hangs count as violations"),
P("C04", "Removing a walker frees its site and leaves nothing of it behind",
  "After a walker is removed its site can be entered again at once, by the same or by another walker, with or without a cluster around it. A walker that is placed again after a removal is treated like one that was never in the system: its stay is drawn afresh. Removing one walker changes nothing for the others and nothing about the clusters.",
  ["histories", "schedules"], "removal at every point of every history, followed by every continuation",
  "The tests remove walkers only at the end of a run and never bring one back.",
  [SYS, CLU, SIT], [("removeWalkerFromSystem, initializeWalkers", SYS), ("remaining dwell time per walker of a cluster", CLU)],
  ["system", "cluster"], HIST_RULE + " In addition all interleavings of two walkers in a cluster, one of them removed and brought back.", HIST_BOUNDS, [A_UGLY, A_RNG, A_DRAIN, A_FP], ""),
P("C05", "A fixed seed and a fixed sequence of calls reproduce the run exactly",
  "Two systems given the same rates, settings and seed and driven by the same sequence of calls return the same sites, announced sites, dwell times, clusters (up to the numbering) and visit counts at every step, no matter what other systems exist or are used in the same program in between, and no matter what is asked about the system on the way. Different seeds lead to different runs.",
  ["programs", "schedules", "configurations"], "every interleaving of the two systems' calls and of unrelated use of the library, for every seed and order of calls within the bounds",
  "A test compares at most one run with itself; hidden dependence on global state, addresses or the clock shows only when two runs are interleaved in many ways.",
  [SYS, SIT, CLU, TOP], [("per feature generators seeded from the user's seed", SYS + ":initializeSystem"), ("setRandomSeed of features", TOP)],
  ["repro"], "Two copies of a system with the library's own generators: every order of hops, removals and put-backs of two walkers, x seeds x 4 kinds of foreign activity between the calls (other systems being created, used and destroyed, other seeds); long runs of 12 kinds; single sites and clusters. All observations compared bit for bit.",
  "depth 7 (thorough 10), 10 systems, 4 seeds; long runs 2000 hops", [A_UGLY, "the hash containers of this standard library iterate in the same order for the same insertions, which the library relies on"], "no draws replaced: the library's own generators run"),
P("C06", "Visit counts: every arrival is counted once, where it happened, and never lost",
  "The visit count of a site outside every cluster is the number of times a walker was placed there, hopped there, or stayed there because the site it wanted to hop to was taken. Sites start at zero; a visit to one site changes the count of no other site, except of members of the same cluster; removing a walker, lumping sites and asking for a count change no count. For a site in a cluster the count never decreases and includes the visits made before it was lumped; a count beyond the range of an int stays at the largest int.",
  ["histories", "schedules"], "every history within the bounds, including blocked hops, removals and sites joining clusters",
  "The tests check one or two counts after a fixed run without blocked hops or lumping.",
  [SYS, SIT, CLU, SC], [("occupy counts the visit", TOP), ("visit estimate of clusters", CLU + ":getVisitFrequency")],
  ["system"], HIST_RULE, HIST_BOUNDS, [A_UGLY, A_RNG, A_DRAIN, A_FP, "the estimate inside clusters is bounded by C17, not here"], ""),
P("C07", "Sites are lumped when, and only when, the coarse-graining criterion is met",
  "Sites are lumped only in a hop with which more hops than the current iteration threshold were made since the last check, only the basin of fast rates around the site the walker hops to (at most five sites, joined with the clusters it touches), and only if one over the sum of the rates off the basin exceeds the performance ratio times twice the time to traverse it, and twice that time is below the time resolution; when all of this holds and not all of them are lumped already, they are lumped. The resolution of a new cluster is at least two and its time increment never exceeds the time resolution; merging keeps the increment at or below it. The threshold starts at the minimum the user set, doubles after a check that lumps nothing, returns to the minimum after one that does, and with the infinite threshold nothing is ever lumped.",
  ["histories", "inputs", "configurations"], "every rate graph, threshold, time resolution and history within the bounds",
  "The tests contain a few systems in which the criterion is far from its boundary and check that a cluster appeared.",
  [SYS, BAS], [("coarseGrainSiteIfNeeded_, coarseGrain_, sitesSatisfyEquilibriumCondition_, createCluster_", SYS), ("findBasin", BAS)],
  ["system"], HIST_RULE + " The reference model predicts, hop by hop, whether a check is due and its outcome.", HIST_BOUNDS, [A_UGLY, A_RNG, A_DRAIN, A_FP, "basin as the library defines it: sites reached over rates at least as fast as the fastest rate off the start, at most five added"], "near the boundary of the criterion (relative distance below 1e-9) either outcome is accepted"),
P("C08", "Misuse is rejected with an exception and has no effect",
  "Initialising without a time resolution or a second time, placing walkers before initialisation, placing a walker that is on no site or on an unknown site, hopping or removing a walker that was not placed, asking about an unknown site, a time resolution that is not positive, reading a time resolution that was not set, and setting the seed after initialisation each throw an exception. A rejected call leaves the system and the walker as they were, and correct calls before and after it behave as if it had not been made. Correct calls are never rejected.",
  ["programs", "fault_sequences"], "every sequence of correct and incorrect calls up to the depth",
  "The tests try single wrong calls on fresh objects, not wrong calls at every point of a sequence.",
  [SYS, W, SC], [("checks at the head of the public calls", SYS), ("Walker::getIdOfSiteCurrentlyOccupying", W)],
  ["system"], "Every sequence of 19 correct and incorrect calls on one system; each call must throw or succeed as specified and all observations are compared with a reference model after each.", "depth 9 (thorough 12), cut at known states; 4 variants of rates and call styles", [A_UGLY, A_RNG], ""),
P("C09", "A site sends walkers to each neighbour with probability rate / sum of rates",
  "A site chooses each of its neighbours with probability proportional to the rate to it, for any number of neighbours and any spread of rates, and never anything else. Every value a uniform draw can take, including the ends of the interval, leads to a neighbour. The choice does not depend on the walker or on earlier choices.",
  ["inputs"], "every set of rates within the bounds, every value of the draw",
  "The tests sample a few thousand picks of one site and compare roughly.",
  [SIT], [("calculateProbabilityHopToNeighbors_, pickNewSiteId", SIT), ("probability of hopping to a neighbour", SIT)],
  ["site"], "For every set of rates: pickNewSiteId is executed for every draw on a grid and on both sides of every boundary between neighbours, and the share of each neighbour compared with rate over sum. Sequences of picks of several walkers must equal the single picks.",
  "1 to 4 neighbours with rates from 5 levels over 12 decades, all multisets and orders, plus 375 to 380 sets up to 40 neighbours; grid of 1000 draws plus boundaries", [A_RNG, A_FP], ""),
P("C10", "Dwell times at a site are exponential with mean 1 / sum of rates",
  "The dwell time drawn for a walker on a site is a monotone transform of one uniform draw whose distribution is exponential with mean one over the sum of the rates off the site. It is finite and positive for every draw including the ends of the interval, and each stay is drawn independently. The reported time constant of the site is that mean.",
  ["inputs"], "every set of rates within the bounds, every value of the draw",
  "The tests average a few draws of one seeded generator.",
  [SIT, TOP], [("getDwellTime", TOP), ("escape time constant", SIT)],
  ["site"], "For every set of rates getDwellTime is executed for a grid of draws and its ends; the sorted times must be the quantiles of the exponential distribution.", "375 rate sets, 2080 draws each", [A_RNG, A_FP], "both -ln(u) and -ln(1-u) are accepted as transforms"),
P("C11", "A cluster releases walkers to its neighbours with the right probabilities",
  "When the sites of a cluster equilibrate much faster than walkers leave it, the probability of leaving to a given outside site is the time spent at each member, in equilibrium, times the rate from it to that site, normalised over all exits. The reported probabilities of hopping to the outside neighbours add up to one and are the ones the walkers follow, whatever the order in which the members and rates were added. Every draw leads to a member or to an outside neighbour.",
  ["inputs", "configurations"], "every cluster topology, rate set and draw within the bounds",
  "The tests check two or three symmetric clusters with symmetric rates, for which most wrong formulas agree with the right one.",
  [CLU], [("probability to hop to neighbours, internal probabilities, convergence", CLU), ("pickNewSiteId", CLU)],
  ["cluster"], CLU_RULE + "Exit probabilities from the accessor and from executing picks for a grid of draws, against the stationary distribution solved by elimination.", "members 2 to 12; separation of time scales 1e5 (1e-3 tolerance) and 1e2 (8 %)", [A_RNG, A_GRID, A_SC, A_FP], ""),
P("C12", "A cluster keeps walkers for the physically right time",
  "The time a walker spends in a cluster before leaving it is exponential with mean one over the sum, over members, of equilibrium share times the rates off the cluster, for every strongly connected cluster, including ones where some members have no rate off. The reported time constant is this mean. The time is handed out in pieces that add up to it.",
  ["inputs", "configurations"], "every cluster topology, rate set and draw within the bounds",
  "The tests check a few symmetric clusters with an exit at every site.",
  [CLU, TOP], [("escape time constant and getDwellTime", CLU)],
  ["cluster"], CLU_RULE + "Time constant and quantiles of the total stay, from executing stays for a grid of draws, against elimination.", "as C11", [A_RNG, A_GRID, A_SC, A_FP], ""),
P("C13", "Inside a cluster a walker is found at each member with its equilibrium share",
  "A walker that stays in a cluster is moved to each member with the share of time a walker hopping by the rates inside the cluster spends there in equilibrium; the probability reported for a member is its share of the hops, and these add up to one. All ways of solving for them agree: a number of iterations per site is as many times the sites per cluster, and a tolerance is met up to the conditioning of the rates. They do not depend on the order in which members were added, on earlier solutions, or on the unit of time.",
  ["inputs", "configurations"], "every cluster topology and rate set within the bounds, every convergence setting",
  "The tests compare one pair or chain with hand-computed values.",
  [CLU], [("solveMasterEquation_ and convergence methods", CLU), ("getProbabilityOfOccupyingInternalSite", CLU)],
  ["cluster"], CLU_RULE + "Shares from the accessor and from executed picks against elimination; all convergence methods and settings.", "as C11; rates inside spread over up to six decades", [A_RNG, A_GRID, A_SC, A_FP], ""),
P("C14", "The stay in a cluster is cut into slices no longer than its time increment",
  "While a walker is in a cluster each dwell time it is given is at most the cluster's time increment, and the slices until it leaves add up to the stay drawn when it entered. The walker is sent to a member after every slice but the last and to a site outside after the last. The slices of one walker are independent of those of every other walker in the cluster.",
  ["histories", "schedules", "inputs"], "every interleaving of walkers in a cluster, every draw and every resolution within the bounds",
  "The tests follow one walker in one cluster.",
  [CLU, SYS], [("remaining dwell time per walker", CLU + ":getDwellTime, pickNewSiteId"), ("resolution and time increment", CLU)],
  ["system", "cluster"], HIST_RULE + " In the cluster harness: slices for every net, draw and resolution; all interleavings of two and three walkers; a hundred walkers in turn.", HIST_BOUNDS, [A_UGLY, A_RNG, A_SC, A_DRAIN, A_FP], ""),
P("C15", "Merging clusters gives the cluster of the union, whatever the order",
  "A cluster built by adding the sites of a set at once, one after another, in any order, or by merging clusters of its parts has the same members, neighbours, rates, probabilities and mean stay. A site or cluster merged into another belongs to the other completely and to nothing else. Merging keeps the id of the cluster that absorbs, its resolution, the visit counts and the occupation of all members, and recalculating an unchanged cluster changes nothing.",
  ["programs", "inputs"], "every partition of every net within the bounds into two clusters, every order of adding",
  "The tests merge one pair of clusters.",
  [CLU, TOP], [("addSite, addSites, migrateSitesFrom", CLU)],
  ["cluster"], "Every net and every way of splitting its members in two and three; build directly and by merging, compare all observations with each other and with the exact solution.", "nets of 2 to 6 members, 668 splits", [A_RNG, A_SC, A_FP], ""),
P("C16", "Rates are live: after an update everything follows the present rates",
  "The library keeps no stale copy of a rate that the user owns: after rates are changed and the site or cluster is told to update, its probabilities, mean dwell time, reported rates and choices are those of one built with the present rates. Rates can be added, changed and reset in any order. A change that is undone leaves no trace.",
  ["histories", "inputs"], "every sequence of rate changes, additions, resets and updates up to the depth",
  "The tests never change a rate after construction.",
  [SIT, CLU], [("rates held by pointer, addNeighRate, resetNeighRate, setRatesToNeighbors", SIT), ("updateProbabilitiesAndTimeConstant", CLU)],
  ["site", "cluster"], "Every sequence of changes, with picks and dwell times after each, compared with a freshly built object and with the law.", "3 neighbours, 4 levels, depth 4 (thorough 6); 200 clusters", [A_RNG, A_SC, A_FP], ""),
P("C17", "The visit estimate of lumped sites is what hopping site by site would give",
  "The visit count a cluster reports for a member is the count it was given at the start plus an estimate of the visits a walker hopping site by site would have made there: the number of arrivals in the cluster times the mean time of one slice times the member's share of time times its rate to other members. It never decreases, stays at the largest int when it exceeds it, and asking, however often, and recalculating the cluster change nothing.",
  ["inputs", "histories"], "every net, number of visits and order of stays within the bounds",
  "The tests check that one count is positive.",
  [CLU, TOP], [("getVisitFrequency, setVisitFrequency, removeWalker", CLU)],
  ["cluster"], CLU_RULE + "Counts after every number of stays up to the bound against a reference estimate.", "all nets of C11, two resolutions, several stays; 40000 arrivals and estimates beyond an int on 40 nets", [A_RNG, A_SC, A_FP], ""),
P("C18", "Occupancy flags of sites, clusters and containers always agree",
  "A site is occupied exactly from the moment it is occupied to the moment it is vacated, a cluster exactly when one of its members is, and the containers report of a site or cluster exactly what it reports itself. Occupying or vacating one site never changes another. The answer of a cluster for one of its sites is the answer of the site.",
  ["histories"], "every sequence of occupying, vacating and lumping within the bounds",
  "The tests occupy and vacate one site once.",
  [SIT, CLU, SC, CC], [("occupy, vacate, isOccupied", TOP), ("isOccupied(siteId)", CLU)],
  ["containers", "site", "cluster"], "Every sequence of occupy, vacate, query and adding to clusters and containers, compared with a set of occupied sites.", "3 to 4 sites, depth 5 to 7; 600 sites, 150 clusters and 70000 occupations in one history each", [A_RNG, A_FP], "a site is not occupied twice"),
P("C19", "Rate container: exact directed multigraph answers for every set of rates",
  "For every set of directed rates, added in any of the supported ways and any order, the container returns every rate exactly, throws for every rate that is absent, and reports outgoing and incoming rates, their counts, sources and sinks exactly as the set of rates implies. Adding a rate that exists is rejected and changes nothing, and asking never changes the container.",
  ["inputs", "programs"], "every directed graph on 3 and 4 ids, every way of adding",
  "The tests use one small graph.",
  [RC], [("addRate, addRates, getRate, getOutgoingRates, getIncomingRates, getSourceSiteIds, getSinkSiteIds", RC)],
  ["containers"], "All 512 directed graphs on 3 ids with self rates and all 4096 on 4 ids without, x 6 ways of adding; every query for every id and an unknown one, before and after each other. Stars, rings, chains and circulants on up to 300 ids.", "3 and 4 ids exhaustively, up to 300 ids of 5 kinds", [A_FP], ""),
P("C20", "Site container: exact bookkeeping of sites and their clusters",
  "The container returns exactly the sites that were added, by id, rejects duplicates and unknown ids, and reports for each site its cluster, occupancy, rates and visits as the site itself does. The smallest cluster id among given sites and membership questions agree with the assignments made. Queries change nothing.",
  ["histories", "inputs"], "every sequence of additions, cluster assignments, occupations and queries up to the depth",
  "The tests add three sites and query each once.",
  [SC], [("site map and accessors", SC)],
  ["containers"], "Every sequence of operations on up to four sites, all queries compared with a reference model after each.", "depth 3 (thorough 5), 32 configurations of ids and rates; 90 and 600 sites, 70000 visits", [A_FP], ""),
P("C21", "Cluster container: exact bookkeeping of clusters",
  "The container returns exactly the clusters that were added and not erased, by id, rejects duplicates and unknown ids, and reports their sites, neighbours, fastest rates off, time constants, time increments and resolutions as the clusters do; no two clusters share an id. Erasing one cluster changes no other. Queries change nothing.",
  ["histories", "inputs"], "every sequence of additions, erasures and queries up to the depth",
  "The tests add two clusters and query each once.",
  [CC], [("cluster map and accessors", CC)],
  ["containers"], "Every sequence of operations on up to four clusters, all queries compared with a reference model after each.", "depth 4 (thorough 6), 36 configurations; 40 and 150 clusters; 70000 (thorough 1.2 million) clusters for their ids", [A_FP], ""),
P("C22", "Event queue: nothing lost, nothing invented, always the earliest first",
  "Events come out of the queue in order of time once it has been sorted and while events are added in sorted position, each exactly once with the walker id and time it was put in with. The number of events is that of insertions minus removals. Sorting and sorted insertion of any sequence, including equal times, zero, negative and very large ones, give the same order of times.",
  ["histories", "inputs"], "every sequence of adds, sorted adds, sorts and pops up to the depth over a set of times with ties",
  "The tests sort one list of five events.",
  [Q, I + "queue.hpp"], [("add, sortedAdd, sort, pop_current, at, size", Q)],
  ["queue"], "Every sequence of operations against a multiset model; all permutations of 6 events; long queues; the kinetic Monte Carlo loop.", "depth 7 (thorough 9), 5 times with ties; queues to 400", [A_FP], "order among equal times is not specified; no pop from an empty queue"),
P("C23", "Walkers and identities hold exactly what was set and refuse to invent it",
  "A walker reports the current site, announced site and dwell time last set, and asking for a site before one was set throws, and the dwell time is negative until one is set. An object has no id until one is set, asking for it before throws, and then it reports the last one set. Different walkers and objects, copies included, never share anything.",
  ["histories"], "every sequence of sets and queries up to the depth on two walkers",
  "The tests set each value once.",
  [W, I + "walker.hpp", IDE], [("Walker setters and getters", W), ("setId, getId", IDE)],
  ["misc"], "Every sequence of setters on two walkers with all getters compared after each.", "depth 5 (thorough 7)", [A_FP], ""),
P("C24", "Lattice index and coordinates are inverse bijections",
  "For every lattice size the index of a coordinate triple and the coordinates of an index are inverse to each other, the indices are exactly 0 to number of sites minus one with x varying fastest, then y, then z. Indices and (on bounded axes) coordinates outside the lattice are rejected, and so are lattices with a negative length, width or height. The separate x, y and z accessors agree with the triple.",
  ["inputs", "configurations"], "every lattice size within the bounds with every site and every index beside the range",
  "The tests check corners of one cube.",
  [LAT], [("getIndex, getPosition, getX, getY, getZ", LAT)],
  ["lattice"], "All sizes up to the bound and big, thin and huge ones, all sites, all boundary settings.", "sizes 1 to 6 per axis, selected up to 1e5 sites; huge lattices at corners", [A_FP], ""),
P("C25", "Periodic axes wrap: a shift by any multiple of the length is the same site",
  "On a periodic axis coordinates that differ by any positive or negative multiple of the length denote the same site; on a bounded axis coordinates outside are rejected. This holds for each axis separately, for every combination of boundary settings, whether coordinates are given as three numbers or as a vector.",
  ["inputs", "configurations"], "every size, boundary setting, site and shift within the bounds",
  "The tests step one site over one face.",
  [LAT], [("getIndex with boundary settings", LAT)],
  ["lattice"], "All sizes x 8 boundary settings x all sites x shifts of -3 to 3 lengths on each axis.", "sizes 1 to 5 (all), selected larger", [A_FP], ""),
P("C26", "Neighbour lists are exactly the sites within the cutoff, at the right distance",
  "The neighbours of a site are exactly the other sites within the cutoff distance, each listed once, with its smallest distance taking periodic images into account on periodic axes only. The relation is symmetric, and all ways of asking (list of indices, distances of one site by index or by position, whole lattice) agree. This holds for cutoffs shorter and longer than the lattice and any lattice spacing.",
  ["inputs", "configurations"], "every size, boundary setting, site, spacing and cutoff within the bounds",
  "The tests check one interior site of one cube with one cutoff.",
  [LAT], [("getNeighbors, getNeighborDistances", LAT)],
  ["lattice"], "All sizes x 8 boundary settings x all sites x cutoffs around every shell, compared with brute force over images.", "sizes 1 to 4 (all), selected larger; cutoffs 0.5 to beyond the lattice, and every distance of 8 lattices with 12 spacings as cutoff", [A_FP], "the site itself is not its own neighbour"),
P("C27", "Smallest distance is a metric that respects the boundaries",
  "The smallest distance between two sites is the Euclidean distance in lattice units of length, over periodic images on periodic axes only; it is zero only for the same site, symmetric, satisfies the triangle inequality, is never larger than the plain distance and is unchanged by translations along periodic axes. It scales with the lattice spacing.",
  ["inputs", "configurations"], "every pair of sites of every size and boundary setting within the bounds",
  "The tests check one or two pairs.",
  [LAT], [("getSmallestDistance", LAT)],
  ["lattice"], "All sizes x 8 boundary settings x all pairs of sites against brute force over images.", "sizes 1 to 6, selected larger", [A_FP], ""),
P("C28", "Random site of a plane: in the plane, all sites possible, bad planes rejected",
  "A random site drawn from a plane of the lattice lies in that plane and in the lattice, every site of the plane is drawn for some value of the draws and all equally likely. A plane outside the lattice is rejected. The axes may have different lengths.",
  ["inputs", "configurations"], "every size, plane and pair of draws",
  "The tests draw a few sites of a cube.",
  [LAT], [("getRandomSite", LAT)],
  ["lattice"], "All sizes x 3 planes x all positions x all values of the integer draws.", "sizes 1 to 6", [A_RNG, A_FP], ""),
P("C29", "Marcus rates obey the formula, its scaling and detailed balance",
  "For every reorganisation energy, temperature, coupling and site energies the rate is the one of the documented Marcus expression: positive, proportional to the square of the coupling, depending on the two energies only through their difference, and largest when the energy gained equals the reorganisation energy. Forward and backward rates obey detailed balance at the given temperature. The object keeps nothing between calls.",
  ["inputs"], "every point of a grid over the parameters",
  "The tests do not exercise Marcus rates.",
  [MAR, I + "charge_transport/marcus.hpp"], [("getRate", MAR)],
  ["marcus"], "Every point of a grid of reorganisation energies, temperatures, energies and couplings, against the documented formula computed in long double, and the relations.", "11 x 13 x 57 x 57 values", [A_FP], ""),
P("C30", "Coarse graining changes the cost of a simulation, not its physics",
  "With coarse graining off, walkers perform the continuous-time random walk the rates define: exponential stays with the sum of rates, destinations in proportion to rates. With it on, the mean time to leave a cluster, the distribution over where to, the shares of time at its members and the mean times to come from site to site are those of the same walk followed hop by hop, within the error the separation of time scales allows. Switching it on never changes the walk on sites that are not lumped.",
  ["configurations", "inputs", "histories"], "every rate graph and time resolution within the bounds, every draw of a grid",
  "The regression tests compare one long seeded run with stored numbers.",
  [SYS, CLU, SIT, BAS], [("hop, initializeWalkers, coarse graining, cluster probabilities and dwell times", SYS)],
  ["system"], "Every graph of the histories: basins are found by a warm-up walk, then for each site stays are executed for a grid of draws and compared with exact linear algebra on the rates (mean exit time, exit distribution, shares, mean first-passage times).", "342 graphs x 3 time resolutions; grid of 24 and 200 draws", [A_UGLY, A_RNG, A_GRID, A_DRAIN, A_FP], "tolerance 1 % plus the inverse separation of time scales"),
P("C31", "The unit of time is arbitrary: scaled rates give the same walk, scaled",
  "Multiplying every rate by a constant and dividing the time resolution by it leaves everything but the unit of time as it is: walkers visit the same sites in the same order for the same random numbers, the same sites are lumped at the same moment with the same resolution, visit counts are equal, and every dwell time and time increment is divided by the constant. No decision depends on the absolute size of a rate or a time.",
  ["configurations", "histories"], "every rate graph and history within the bounds, powers of two from 2^-90 to 2^100",
  "The tests use one set of rates each.",
  [SYS, CLU, SIT, BAS], [("hop, initializeWalkers, coarse graining", SYS), ("dwell times and probabilities", CLU)],
  ["system"], "Two systems, one with scaled rates and time resolution, are given the same calls and the same draws in every history; walkers, clusters, increments, resolutions and visits are compared after each call.", "342 graphs, 1 and 2 walkers, depth 4 to 5 (thorough 6 to 7), 2 of 4 scale factors; long histories of 120 hops for every repeating word of up to 3 draws", [A_UGLY, A_RNG, A_GRID], "powers of two make the comparison exact"),
P("C32", "Looking does not disturb: queries never change the simulation",
  "Asking a system for clusters, cluster ids, visit counts, resolutions, time increments or the time resolution, any number of times at any moment, changes nothing that happens later: the walkers move to the same sites after the same times, the same sites are lumped, and the visit counts at the end are the same up to rounding as in a run in which nothing was asked.",
  ["histories"], "every history within the bounds, with queries between all calls and with none",
  "The tests query a system at the end of one run.",
  [SYS, CLU, SC, CC], [("getVisitFrequencyOfSite, getClusters, getClusterIdOfSite, getResolutionOfClusters, getTimeIncrementOfClusters", SYS), ("getVisitFrequency", CLU)],
  ["system"], "Two systems are given the same calls and the same draws in every history, one is asked for everything between the calls, the other for nothing until the end; walkers are compared after each call, clusters and visits at the end.", "342 graphs, 1 and 2 walkers, depth 4 to 5 (thorough 6 to 7); long histories of 120 hops for every repeating word of up to 3 draws", [A_UGLY, A_RNG, A_GRID], "visit counts may differ by rounding, 1 at most"),
P("C33", "Unconnected sites and the names of walkers have no influence",
  "Sites that no sequence of hops leads to from the walkers, however fast or slow, have no influence on the walkers, on the lumping of other sites or on visit counts, and are themselves never visited or lumped. The ids given to walkers are labels: other ids give the same walk.",
  ["configurations", "histories"], "every rate graph and history within the bounds, with and without unconnected sites",
  "No test has unconnected sites.",
  [SYS, BAS, SC], [("initializeSystem, hop, coarse graining", SYS), ("findBasin", BAS)],
  ["system"], "Two systems, one with a ring of twelve unconnected sites and other walker ids, are given the same calls and the same draws in every history and compared after each call.", "342 graphs, 1 and 2 walkers, depth 4 to 5 (thorough 6 to 7); long histories of 120 hops for every repeating word of up to 3 draws", [A_UGLY, A_RNG, A_GRID], ""),
]
BY = {d["id"]: d for d in SPEC}
