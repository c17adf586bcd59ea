import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

API="genex/GenexAPI.cpp"; APIH="genex/GenexAPI.hpp"
p("C01","Requests naming a dataset that is not loaded are refused without effect",
"Every operation of the public interface that refers to a dataset by name raises the library's own exception when no dataset of that name is loaded. It does so before any other effect, so such a request never registers the name, changes a dataset or touches a file. When the name is loaded, the operation works on the dataset of exactly that name.",
["inputs","histories"],"every public operation, every name argument of it, every history of loads and unloads before it",
"Tests try an unknown name on a handful of operations; a missing check on one argument of one operation inserts an empty entry silently and only a later call crashes.",
[API,APIH],[("name check in front of every registry access","GenexAPI::_checkDatasetName and its callers")],
[("registry of datasets","name to dataset","GenexAPI::_loadedDatasets")],["GenexAPI public methods"])
p("C02","Dataset count, names and memory agree after every load and unload",
"After any sequence of successful and failed loads and unloads, the reported number of datasets equals the number of names that can be queried. Loading under a name in use is refused and leaves the existing dataset as it was. A load that fails leaves the name unused and releases everything it had allocated.",
["histories","fault_sequences"],"all interleavings of load, unload and unload-all, with every kind of failure inside a load",
"The tests run three or four fixed sequences; a counter update missing on one path, or a leak on one failure path, is invisible to them.",
[API,APIH],[("count changes together with the registry","GenexAPI::loadDataset, unloadDataset, unloadAllDataset"),("failed load is cleaned up","catch block in GenexAPI::loadDataset")],
[("dataset counter","number reported to callers","GenexAPI::_datasetCount")],["GenexAPI::getDatasetCount","GenexAPI::getAllDatasetInfo"])
p("C03","Unloading a dataset also drops everything derived from it",
"Unloading a dataset destroys it exactly once and removes its name together with every structure that was computed from it and kept under that name. A dataset loaded later under the same name starts with no prepared state of the old one, and no operation can reach the destroyed data. Unloading everything, or destroying the interface object, does this for every dataset.",
["histories"],"all histories of load, prepare, query, unload, unload-all and reload under the same name",
"The stale structure is only observable by a history that prepares, unloads, reloads and queries; no test does that and the damage is undefined behaviour.",
[API,APIH,"genex/PAAWrapper.hpp"],[("derived wrappers are removed with their dataset","GenexAPI::unloadDataset, GenexAPI::unloadAllDataset, destructor")],
[("prepared wrappers","hold a reference to the dataset","GenexAPI::_paaWrappers")],["GenexAPI::unloadDataset","GenexAPI::getKBestMatchesPAA"])
p("C04","Any index or range is either inside the series or refused",
"For every dataset and every combination of series index, start and end, asking for a series, a part of a series, its name or its length either yields data lying wholly inside the series asked for or raises the library's own exception. Reading or writing a point of a series by position is checked in the same way against the length of that series.",
["inputs"],"all integer arguments, all dataset shapes including uneven rows and empty datasets",
"Tests try a few bad indexes on one accessor; an unchecked accessor or an off-by-one in one comparison reads neighbouring memory and usually returns something plausible.",
["genex/TimeSeriesSet.cpp","genex/TimeSeriesSet.hpp","genex/TimeSeries.cpp",API],[("range checks before each access","TimeSeriesSet::getTimeSeries, getTimeSeriesName, getItemLength, TimeSeries::operator[]")],
[("row lengths","length of each series","TimeSeriesSet::lengths")],["GenexAPI::getTimeSeries","GenexAPI::getTimeSeriesLength","GenexAPI::getTimeSeriesName"])
p("C05","Loading a data file starts from scratch and is all or nothing",
"A load either succeeds and the dataset then describes exactly the rows, lengths and names of the file just read, with nothing left from an earlier load, or it raises the library's own exception and the dataset is empty (running out of memory aside). Unreadable files, text that is not a number, numbers out of range and column offsets that do not fit the file all count as failures. No file content and no offset makes the load write outside the storage it allocated.",
["inputs","histories","fault_sequences"],"all file contents, all row limits and column offsets, repeated loads on one object",
"Tests load well-formed files and two malformed ones; reload leftovers, negative offsets and mid-file failures are not covered and corrupt memory silently.",
["genex/TimeSeriesSet.cpp"],[("clear before load and on every failure","TimeSeriesSet::loadData, TimeSeriesSet::clearData")],
[("per-dataset state","data, names, lengths, counts, normalised flag","TimeSeriesSet fields")],["TimeSeriesSet::loadData","GenexAPI::loadDataset"])
p("C06","Normalising rescales every value once with the global minimum and maximum",
"Normalising a dataset replaces each of its values x by (x - min) / (max - min), where min and max are taken over all values of the dataset and over nothing else, and returns that min and max. If all values are equal they become zero instead of being divided by zero. A dataset without data is refused with the library's own exception.",
["inputs"],"all datasets of finite values, including uneven rows, a single value, constant and negative data",
"Tests compare a few small rectangular datasets; an off-by-one in a bound or padding cells counted as values only show on uneven rows or at an extreme placed last.",
["genex/TimeSeriesSet.cpp"],[("two full passes over the stored values","TimeSeriesSet::normalize")],None,["GenexAPI::normalizeDataset"])
p("C07","Grouping puts every subsequence into exactly one group of its length",
"After grouping, every subsequence of each grouped length of every series is a member of exactly one group of that length. It joins an existing group only when that group's representative is the nearest one and lies within half the similarity threshold; otherwise it founds a new group and becomes its representative. The reported number of groups is the number of groups that exist.",
["inputs","configurations"],"all datasets including uneven rows, all thresholds, distances and length ranges",
"Tests compare group counts on tiny datasets; a subsequence skipped at the end of a row or added twice changes no asserted value.",
["genex/group/LocalLengthGroupSpace.cpp","genex/group/GlobalGroupSpace.cpp","genex/group/Group.cpp"],[("one pass over all starts and series, one insertion each","LocalLengthGroupSpace::generateGroups"),("member chain and counter","Group::addMember")],
[("member chain","previous member of the same group for every subsequence","LocalLengthGroupSpace::memberMap")],["GenexAPI::groupDataset"])
p("C08","A dataset counts as grouped only when grouping or group loading completed",
"If grouping a dataset or loading saved groups into it fails at any point, the dataset afterwards does not claim to be grouped on the strength of the failed attempt: it is either ungrouped or still has its earlier complete groups. Queries on it then raise the library's own exception or answer from complete groups, and never use partially built ones.",
["fault_sequences","inputs","histories"],"every failure point in grouping and in group loading: bad parameters, unknown distance, truncated or foreign files, memory exhaustion",
"Tests check that the bad call throws, not what state it leaves; each failure point needs its own input.",
["genex/GroupableTimeSeriesSet.cpp","genex/GroupableTimeSeriesSet.hpp"],[("groups become visible only after they are complete","GroupableTimeSeriesSet::groupAllLengths, load, loadGroupsOld")],
[("visible groups","null when not grouped","GroupableTimeSeriesSet::groupsAllLengthSet")],["GenexAPI::groupDataset","GenexAPI::loadGroups","GenexAPI::getBestMatch"])
p("C09","Parallel grouping is free of races and gives the same groups",
"Grouping with any number of threads produces the same groups and the same total as grouping with one thread. Whatever a worker writes while it runs is private to its task or properly synchronised, so no schedule contains a data race. The call returns only after every piece of work has finished, and a failure inside a worker is reported to the caller.",
["schedules","configurations"],"all interleavings of the workers, all thread counts, all datasets",
"A test run observes one schedule and races on shared state are benign most of the time; the two code paths are compared on one dataset only.",
["genex/group/GlobalGroupSpace.cpp","genex/group/LocalLengthGroupSpace.cpp","genex/distance/Distance.hpp"],[("one task per length, own slot per task, futures awaited","GlobalGroupSpace::groupMultiThreaded"),("distance code without shared mutable state","warpedDistance, pairwiseDistance")],None,["GenexAPI::groupDataset"])
p("C10","The worker pool runs each accepted task exactly once and joins its threads",
"Every task accepted by the worker pool is run exactly once, by one worker, before the pool's destruction completes, and its result or exception is delivered to whoever submitted it. The task queue and the stop flag are only touched while holding the pool's lock, tasks run without holding it, and no schedule loses a wake-up or leaves a thread running.",
["schedules"],"all interleavings of submitters, workers and the destructor, and threads that cannot be started",
"Lost wake-ups, dropped tasks at shutdown and unlocked accesses need particular schedules that a test cannot force.",
["genex/lib/ThreadPool.hpp"],[("lock around queue and flag, predicate wait, notify, join","ThreadPool constructor, enqueue, destructor")],
[("task queue and stop flag","shared between submitters and workers","ThreadPool::tasks, ThreadPool::stop")],["ThreadPool"])
p("C11","Similarity search is safe for every query and every grouping state",
"A similarity search over a grouped dataset, for a query of any length and any origin, either raises the library's own exception or answers with a subsequence of the searched dataset. It never consults a length for which no groups exist and never answers from a group that was not found. On a dataset that is not grouped, or not prepared for the requested kind of search, it raises the library's own exception.",
["inputs","histories","configurations"],"all query lengths relative to the dataset, whole-series groupings, loaded groupings, empty groupings, any band ratio",
"Tests use queries no longer than the dataset's own series; longer queries and sparse groupings index past tables or dereference missing groups.",
["genex/group/GlobalGroupSpace.cpp","genex/GroupableTimeSeriesSet.cpp",API],[("length range check and missing-group check","GlobalGroupSpace::getBestMatch, getKBestMatches, generateTraverseOrder")],
[("table of groups per length","entry may be missing","GlobalGroupSpace::localLengthGroupSpace")],["GenexAPI::getBestMatch","GenexAPI::getKBestMatches"])
p("C12","A k-best query returns at most k genuine results, nearest first",
"Every k-best search refuses a non-positive k with the library's own exception and otherwise returns at most k results in ascending order of distance. Each result is a subsequence that was really examined, together with the distance computed between that very subsequence and the query. No placeholder results are added when fewer candidates exist.",
["inputs"],"all k, numbers of candidates examined, datasets with fewer than k candidates",
"Tests ask for a few small k on datasets with plenty of candidates, so padding, over-long answers and mismatched distances do not show.",
["genex/TimeSeriesSet.cpp","genex/GroupableTimeSeriesSet.cpp","genex/PAAWrapper.cpp","genex/group/Group.cpp","genex/group/GlobalGroupSpace.cpp"],[("bounded heap, final sort, trimming","getKBestMatchesBruteForce, getKBestMatches, getKBestMatchesPAA, intraGroupKSim")],None,["GenexAPI::getKBestMatches","GenexAPI::getKBestMatchesBruteForce","GenexAPI::getKBestMatchesPAA"])
p("C13","Exhaustive search examines every subsequence",
"The exhaustive k-best searches examine every subsequence of length two or more of every series of the searched dataset, each exactly once, and drop a candidate only when k candidates that are at least as near are already held.",
["inputs"],"all dataset shapes including uneven rows, all k and queries",
"Tests check the winners of small examples; a subsequence left out at a row end or at the longest length only matters when it is the winner.",
["genex/TimeSeriesSet.cpp","genex/PAAWrapper.cpp"],[("three nested full loops","TimeSeriesSet::getKBestMatchesBruteForce, PAAWrapper::getKBestMatchesPAA")],None,["GenexAPI::getKBestMatchesBruteForce"])
p("C14","Group search picks the nearest representative and its nearest member",
"Among all groups of every length that is within the warping band of the query length, the group search keeps the one whose representative is nearest to the query and replaces it only by a strictly nearer one. The answer is the member of that group nearest to the query, found by examining every member, and the distance reported is the distance of that member.",
["inputs","configurations"],"all groupings, queries and band ratios",
"Tests check a few winners; skipping the last group, the last member or one neighbouring length changes the answer only on particular data.",
["genex/group/GlobalGroupSpace.cpp","genex/group/LocalLengthGroupSpace.cpp","genex/group/Group.cpp"],[("best-so-far loops","getBestGroup, Group::getBestMatch, GlobalGroupSpace::getBestMatch, generateTraverseOrder")],None,["GenexAPI::getBestMatch"])
p("C15","Early abandoning never changes a distance that is within the bound",
"Giving a distance computation a bound may make it answer infinity, but only when what it has established so far already exceeds the bound; in every other case it returns the same value as without a bound. In particular a value equal to the bound does not count as exceeding it, and an infinite bound never causes abandonment.",
["inputs"],"all pairs of series, all bounds, every registered distance and lower-bound cascade",
"Tests use one or two bounds far from the true distance; comparisons that are off at equality or compare values in different units go unnoticed.",
["genex/distance/Distance.hpp","genex/distance/Distance.cpp"],[("strict comparison against the bound","warpedDistance, pairwiseDistance, cascadeDistance, crossKeoghLowerBound")],None,["GenexAPI::distanceBetween","similarity searches"])
p("C16","Every listed distance name selects its own distance, plain and warped",
"Every distance name that is listed can be requested, every name that can be requested is listed, and each selects the computation of exactly that distance, the plain name point by point and the name with the warping suffix with time warping. Any other name is refused with the library's own exception. Grouping and searching under a distance use the plain and the warped form of that same distance.",
["inputs","configurations"],"all names, all registered distances",
"Tests request two or three names; a shifted or swapped entry in the parallel tables selects another valid distance and returns plausible numbers.",
["genex/distance/Distance.cpp","genex/distance/Distance.hpp","genex/group/GlobalGroupSpace.cpp"],[("parallel tables of names and functions","gAllDistance, gAllDistanceName, getDistanceFromName, GlobalGroupSpace::_loadDistance")],None,["GenexAPI::getAllDistanceInfo","GenexAPI::distanceBetween"])
p("C17","A requested alignment is a complete, monotone warping path",
"The alignment returned for two series starts at their first points, ends at their last points, and each step advances one or both positions by exactly one. Where there is a choice, each step goes back to a neighbouring cell of smallest cost, and cells outside the warping band count as infinitely expensive. Asking for an alignment with a distance that does not warp is refused with the library's own exception.",
["inputs","configurations"],"all pairs of series, all band ratios, data containing zeros, infinities and not-a-number",
"Tests check alignments of a few short series with a wide band; unreached cells and not-a-number comparisons need special data.",
["genex/distance/Distance.hpp",API],[("trace back through the cost table","warpedDistance, GenexAPI::matchingBetween")],None,["GenexAPI::matchingBetween"])
p("C18","Computing a distance leaves nothing behind",
"Computing a distance has no effect besides returning its value and, when asked for, the alignment of that one call (envelopes that a series keeps for itself aside). Whatever it allocates while computing is released on return, exactly once, and it writes to no other state shared between calls or threads. Repeating or interleaving computations therefore neither grows memory nor changes any result.",
["histories","schedules","inputs"],"all sequences and interleavings of distance computations, every registered distance",
"Leaks and growth of hidden state do not change any asserted value in a short test run.",
["genex/distance/Distance.hpp","genex/distance/Distance.cpp","genex/distance/Cosine.hpp","genex/distance/Sorensen.hpp"],[("pairing of init and clean; no shared scratch","warpedDistance, pairwiseDistance")],
[("dummy alignment","passed when no alignment is wanted","gNoMatching")],["every distance computation"])
p("C19","Saved groups are read back exactly as they were written",
"For both group file formats, the reader consumes exactly the sequence of items the writer produced, in the same order, of the same kind and with the same meaning, for every grouping. After loading, every attribute of the grouping that influences later queries, reports or another save has the value it had when saved.",
["inputs","configurations","histories"],"all groupings including whole-series ones, empty lengths, repeated save and load",
"Tests save and load one small grouping and compare counts; swapped fields of one type, or an attribute that is not restored, only show in later operations.",
["genex/GroupableTimeSeriesSet.hpp","genex/group/GlobalGroupSpace.hpp","genex/group/LocalLengthGroupSpace.hpp","genex/group/Group.hpp","genex/group/Group.cpp","genex/group/GlobalGroupSpace.cpp"],[("mirrored save and load functions","save/load and saveGroupsOld/loadGroupsOld pairs")],None,["GenexAPI::saveGroups","GenexAPI::loadGroups"])
p("C20","A group file is checked against the dataset before it is trusted",
"Groups are accepted only if the file states the same number of series and the same series length as the dataset; otherwise the load raises an exception and the dataset keeps the groups it had. Every length, count and member position read from a group file is checked against the dataset before it is used as an index, so no file content can make a load or a later query access memory outside the dataset's tables.",
["inputs","fault_sequences"],"all file contents: foreign, truncated, corrupted or hand-made",
"Tests load one incompatible file; hostile or damaged values need a file per field.",
["genex/GroupableTimeSeriesSet.hpp","genex/GroupableTimeSeriesSet.cpp","genex/group/GlobalGroupSpace.hpp","genex/group/Group.cpp","genex/group/Group.hpp"],[("compatibility checks","GroupableTimeSeriesSet::load, loadGroupsOld, Group::addMember")],None,["GenexAPI::loadGroups","GenexAPI::loadGroupsOld"])
p("C21","A save that returns normally has written everything",
"Every operation that writes a file raises an exception if the file cannot be opened or if any part of the output could not be written. If there is nothing to save, it raises the library's own exception without creating the file or touching an existing one.",
["fault_sequences","inputs"],"every write failure (full disk, removed device), every unopenable path, every ungrouped dataset",
"Tests write to a working temporary directory; failures of the medium are never provoked.",
["genex/TimeSeriesSet.cpp","genex/GroupableTimeSeriesSet.cpp","genex/IO.hpp",API],[("stream state checks","TimeSeriesSet::saveData, GroupableTimeSeriesSet::saveGroupsOld, saveToFile")],None,["GenexAPI::saveDataset","GenexAPI::saveGroups","GenexAPI::saveGroupsOld"])
p("C22","Copies of a series are faithful and independent",
"Copying, assigning or moving a series yields a series with the same values, position and length as the source, whatever the two held before and even when both are the same object. A series that holds its own values never shares them with its copy, releases them exactly once, and never releases values it merely refers to. Two series compare equal only if they have the same length and all their values agree, up to a fixed tiny tolerance.",
["inputs","histories"],"all pairs of owning and referring series of all lengths, self-assignment, moved-from series",
"Tests copy series of one length; assignments between different lengths or onto itself damage memory without failing an assertion.",
["genex/TimeSeries.cpp","genex/TimeSeries.hpp"],[("copy constructor, assignments, destructor","TimeSeries")],
[("ownership flag","whether the series frees its values","TimeSeries::isOwnerOfData")],["TimeSeries copies in results of every search"])
p("C23","Cached envelopes always belong to the current values and band",
"The lower and upper envelopes handed out for a series and a warping band are never ones computed earlier for other values or for another band: they were computed over all of its values as of its last assignment or addition, and for exactly the band asked for. This also holds after an attempt to compute them has failed. Values changed from outside, in the dataset a series refers to, are not meant.",
["histories","inputs"],"all sequences of assignments, additions and envelope requests with varying bands",
"Tests ask once for fresh series; stale envelopes need a request, a change and another request, and then only mis-prune some searches.",
["genex/TimeSeries.cpp","genex/TimeSeries.hpp"],[("validity flag and remembered band","TimeSeries::getKeoghLower, getKeoghUpper, operator+=, assignments")],
[("envelope cache","valid flag, band, two arrays","TimeSeries::keoghCacheValid, cachedWarpingBand")],["similarity searches with the Euclidean distance"])
p("C24","No call uses an undefined value, divides by zero or ends the process",
"No operation of the library makes a decision on, indexes with or returns a value that was never set. No input makes it divide an integer by zero. Failures are reported by exceptions: no library operation terminates the process.",
["inputs","histories","configurations"],"all operations and all inputs, including long-running ones that log progress and group files without every field",
"Uninitialised values are usually zero in a test run and the guarded divisions are only reached in rare configurations.",
["genex/","cli/"],[("initialised members and variables, guarded divisors","all library functions")],None,["every public operation"])
p("C25","Every operation terminates",
"Every loop of the library advances towards its exit on every iteration, whatever the data, so every operation finishes. This includes data with zeros, infinities and not-a-number values, chains of group members, and files that end early.",
["inputs"],"all inputs and all file contents",
"A hang needs the particular value pattern on which one branch of one loop makes no progress.",
["genex/"],[("loop counters and shrinking measures","all loops, notably the alignment trace back and the member chains")],None,["every public operation"])
p("C26","Commands only use arguments they were given, as their usage line documents",
"No command of the command-line tool reads an argument that was not supplied, for any number of words on the line. Each command accepts exactly the numbers of arguments its usage line documents, and passes each of them on to the library in its documented role; arguments left out take their documented default.",
["inputs"],"all commands, all numbers of arguments",
"The command-line tool has no tests at all.",
["cli/GenexCLI.cpp","cli/Command.hpp"],[("argument count checks before use","tooFewArgs, tooManyArgs and size tests in every command")],None,["command line"])
p("C27","No command line ends the interactive session or corrupts memory",
"Whatever line is entered, the session survives: every exception raised while executing a command is caught, reported as an error, and the next line is read; only an explicit quit or end of input ends it. Memory obtained from the line editor is released exactly once, with the matching function, and not used afterwards.",
["inputs","histories"],"all command lines and all errors raised by the library beneath",
"The interactive loop is not covered by any test.",
["cli/GenexCLI.cpp"],[("catch-all around command execution","main, processLine, wantToQuitByEOF")],None,["command line"])
p("C28","The Python module offers the library's operations unchanged",
"Every operation of the Python module calls the corresponding library operation once, passes each argument on in its role, and returns that operation's result with every field in its place. Arguments given by name reach the parameter of that name, and arguments left out take the defaults of the library. Exceptions of the library reach Python as exceptions.",
["inputs"],"all exported operations and all their arguments",
"The Python module is not built by the tests.",
["pygenex/GENEXBindings.cpp"],[("wrapper functions","GENEXBindings.cpp")],None,["Python module"])
p("C29","Public operations pass each argument on in its own role",
"Each public operation hands every one of its arguments to the step it is documented for: index, start and end select the query in the dataset named for the query, the search runs on the dataset named as target, and counts, thresholds, distance names, thread counts, block sizes, paths and flags arrive unchanged and in their own place. The value returned to the caller is the result of that step.",
["inputs"],"all public operations and all their arguments",
"Tests mostly use the same dataset as target and query, and equal values for exchangeable arguments, so a swap is not visible.",
[API],[("delegation to dataset and search objects","GenexAPI public methods")],None,["GenexAPI public methods"])
p("C30","A dataset written as text is complete and loses no precision",
"Saving a dataset as text writes every series with its name, if it has one, and all of its values in order, and nothing else. Every value is written with enough digits to be read back as the identical number.",
["inputs"],"all datasets including uneven rows, all values and separators",
"No test saves a dataset; the default output precision silently rounds values.",
["genex/TimeSeriesSet.cpp"],[("full loops over rows and columns, stream precision","TimeSeriesSet::saveData")],None,["GenexAPI::saveDataset"])
p("C31","Distance values follow the definition of their distance",
"The plain value of a distance is its definition over all pairs of points with equal positions: root of the mean squared difference (euclidean), mean absolute difference (manhattan), largest absolute difference (chebyshev), cosine of the two series (cosine), and sum of the absolute differences over the sum of the absolute sums (sorensen). The warped value is built over the pairs of positions that differ by at most the band: each pair extends the cheapest of its up to three neighbours by its own two points, and the value of the last pair is the answer; euclidean and manhattan totals are divided by twice the longer length after taking the root, if any. The band is the set fraction of the longer length, rounded down, and less than that length.",
["inputs"],"all pairs of series of equal and different lengths, all band ratios","Tests compare a few hand-computed values for short series; a wrong neighbour, border, length or term shows only for particular shapes and lengths.",
["genex/distance/Distance.hpp","genex/distance/Distance.cpp","genex/distance/Euclidean.hpp","genex/distance/Manhattan.hpp","genex/distance/Chebyshev.hpp","genex/distance/Cosine.hpp","genex/distance/Sorensen.hpp"],[("totals of a metric","init, reduce, norm, normDTW of the metric classes"),("cost table","warpedDistance"),("band","calculateWarpingBandSize")],None,["GenexAPI::distanceBetween","similarity searches"])
p("C32","Lower bounds never exceed the distance they bound",
"The lower bounds used to cut a warped Euclidean comparison short never exceed the warped Euclidean distance of the same pair under the band in use (rounding and values that are not numbers aside), so pruning never discards the true best match. The envelopes behind them hold, for every position of a series, values at least as large and at least as small as every point of the series within the band around that position. Infinity is answered in place of the distance only when a lower bound of that pair exceeds the bound given.",
["inputs"],"all pairs of series of equal and different lengths, all bands","Needs an argument over all series and bands; tests compare one pair, and a bound that is slightly too large only loses some matches.",
["genex/distance/Distance.cpp","genex/lib/trillionDTW.cpp","genex/lib/deque.cpp","genex/TimeSeries.cpp"],[("bounds by end points and envelopes","kimLowerBound, keoghLowerBound, crossKeoghLowerBound"),("pruning cascade","cascadeDistance"),("envelopes","lower_upper_lemire, TimeSeries::generateKeoghLU")],None,["similarity searches","GenexAPI::distanceBetween"])
p("C33","Results and groups are ranked by a consistent order",
"Wherever candidates or groups are sorted or kept in a heap, the comparison used is a strict weak order on everything that can occur: nothing is ranked before itself, no two items are ranked before each other, and both being before and being neither before nor after are transitive. This includes equal and nearly equal distances, infinite ones and ones that are not a number.",
["inputs"],"all triples of candidates and of groups, with every combination of equal, different, infinite and undefined distances","An inconsistent order needs triples of particular distances, and its effect depends on the library's sorting algorithm; tests compare a few well separated distances.",
["genex/TimeSeries.hpp","genex/group/Group.hpp","genex/TimeSeriesSet.cpp","genex/group/LocalLengthGroupSpace.cpp"],[("comparison of candidates","candidate_time_series_t::operator<"),("comparison of groups","group_index_t::operator<")],None,["k-best searches","results returned to the caller"])
p("C34","Grouped k-best search keeps the nearest groups and members",
"The grouped k-best search goes through all groups of every length within the warping band and keeps those whose representatives are nearest: a group is left out only when the groups kept, none of them farther, together have at least as many members as were to be examined. Of the farthest group kept only the members nearest to the query are taken, as many as are still missing, and of the others all members. All of these compete for the answer.",
["inputs"],"all datasets, groupings, queries and counts","Which groups and members are kept depends on sizes and distances of many groups together; the tests have few groups and mostly ask for fewer series than one group holds.",
["genex/group/LocalLengthGroupSpace.cpp","genex/group/GlobalGroupSpace.cpp","genex/group/Group.cpp"],[("choice of groups by a heap and a count of missing members","interLevelKSim"),("search over lengths and collection of members","GlobalGroupSpace::getKBestMatches"),("nearest members of one group","intraGroupKSim")],None,["GenexAPI::getKBestMatches"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
