"""Source of properties.jsonl (run to regenerate)."""
import json, os
G = "src/python/deepgnn/graph_engine/"
S = G + "snark/"
C = "src/cc/lib/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Converted binaries hold exactly the input graph",
  "For any input graph, the binary files the converter writes describe exactly that graph: every node with its id, type and every feature value (dense of every numeric type, string and sparse, with absent features empty), and under its source every edge with its destination, type, weight and features, once each and nothing else. Edges of a node keep their record order, an edge whose source is not declared in the same partition still belongs to that source, and every index file points at the exact bytes of its element.",
  ["inputs", "configurations"], "all graphs (node/edge types, fan-out, missing/empty/mixed features, repeated and undeclared sources, extreme ids and values) and all partition counts",
  "convert_test compares a couple of hand-made graphs against byte constants; the format must be right for every combination of absent features, mixed feature kinds, edges without features, placeholder sources and partition splits.",
  [S + "converter/writers.py", S + "converter/process.py", S + "convert.py", S + "decoders.py", S + "meta.py"],
  [("BinaryWriter and its node/edge/feature writers", S + "converter/writers.py"), ("convert_features", S + "converter/writers.py")],
  ["files in the output directory"], [("index files", "offsets from elements to their data", S + "converter/writers.py")])
p("C02", "Conversion result does not depend on partitioning, workers or timing",
  "However many partitions and converter workers are used, whichever dispatcher distributes the records, and whatever order and speed the parallel writers run at, every input record is converted exactly once into exactly one of the partitions owned by the worker that read it, and conversion always finishes. Different workers own disjoint partition ranges that together are all the requested partitions, so the union over all partitions is the same graph as a single-partition conversion.",
  ["schedules", "configurations", "inputs"], "all interleavings of dispatcher and writers, all partition/worker counts and input sizes",
  "Tests run one free-running schedule on a handful of partition/worker counts and never control interleaving of the parallel writers.",
  [S + "dispatcher.py", S + "converter/process.py", S + "convert.py", G + "_adl_reader.py"],
  [("round robin pipes / bounded queues with an end marker per writer", S + "dispatcher.py"), ("partition offset computation", S + "convert.py"), ("file assignment to workers", G + "_adl_reader.py")],
  ["output directory", "calls to the user supplied decoder"], [("in-flight records", "records sent to a writer and not yet written", S + "dispatcher.py")])
p("C03", "Graph metadata equals the stored content, also after merging workers",
  "The metadata file always agrees with the data beside it: node and edge totals, per-type counts, number of types and features, per-partition per-type node and edge weight sums, watermark and version. Merging the metadata files of any number of workers gives the same metadata as if one worker had converted everything, with every partition keeping its own id and weights.",
  ["inputs", "configurations"], "all graphs, type layouts, partition counts and worker counts (including ten or more), in every order of the metadata files",
  "Tests merge two tiny uniform metadata files; type/partition layouts where the workers differ are never reached.",
  [S + "convert.py", S + "dispatcher.py", S + "meta_merger.py", S + "converter/writers.py"],
  [("aggregation of writer results with padding of missing types", S + "dispatcher.py"), ("merge of per worker metadata", S + "meta_merger.py")],
  ["meta.json"])
p("C04", "Alias tables encode exactly the weight distribution",
  "For every partition and type, the node and edge sampling tables contain exactly the elements of that type stored in that partition, once each, and the probability they assign to an element (its own share plus the shares it receives as an alias) equals its weight divided by the total weight. This holds for any non-negative weights with a positive sum, including zero, equal and extremely skewed weights, and a type with no element in a partition gets an empty table.",
  ["inputs"], "all weight vectors and type layouts",
  "alias_test samples one three-element distribution statistically.",
  [S + "alias.py", S + "converter/writers.py", S + "dispatcher.py"],
  [("Vose construction", S + "alias.py"), ("alias writers", S + "converter/writers.py")], ["node_*.alias and edge_*.alias files"])
p("C05", "All input formats of the same graph decode to the same records",
  "A graph described in JSON, TSV or the edge list format yields the same sequence of node and edge records (ids, types, weights, lifetimes and typed feature values) and therefore the same binary files. Feature numbering follows the declared indices with gaps left empty, and edges of a node come out sorted by edge type in all formats that nest edges.",
  ["inputs"], "all graphs expressible in the formats",
  "Tests cover one record per format and never compare formats against each other.",
  [S + "decoders.py", S + "converter/writers.py"],
  [("JsonDecoder, TsvDecoder, EdgeListDecoder", S + "decoders.py")], ["decoder output", "binary files"])
p("C06", "Temporal graphs store the declared lifetimes or reject the input",
  "In a temporal conversion every stored edge carries exactly the creation and removal times declared for it, defaulting to those of its node when it has none, and the file carries the watermark; without a watermark no lifetime data is written. An edge that would start before its node or outlive it is rejected instead of being stored, and every version of a temporal feature is stored under its own start time in increasing time order.",
  ["inputs"], "all combinations of node/edge/feature times and defaults",
  "Tests cover one temporal record per decoder.",
  [S + "converter/writers.py", S + "decoders.py", S + "convert.py"],
  [("lifetime checks in the record writer", S + "converter/writers.py"), ("TemporalFeature serialization", S + "converter/writers.py")], ["edge_*.timestamp files", "feature data", "raised errors"])
p("R01", "Text input is read line by line exactly once per epoch",
  "Iterating over text input returns every non-blank line of every file exactly once per epoch and in file order when not shuffled, regardless of block size, number of reader threads, queue size, line length, encoding width, or a missing final newline. The files are split among workers so that each file is read by exactly one worker, batches have the requested size except a last partial one (dropped only when asked), and iteration ends after the requested number of epochs and can be restarted; a read error is raised to the consumer, never taken for missing text.",
  ["inputs", "configurations", "schedules"], "all file contents and all block/thread/worker/batch/epoch settings",
  "test_adl_reader is skipped here and uses default block sizes larger than its files, so block boundaries inside lines are hardly exercised.",
  [G + "_adl_reader.py"], [("block splitting and prefix/suffix stitching", G + "_adl_reader.py"), ("worker file assignment", G + "_adl_reader.py")],
  ["iterator output"], [("partial line between blocks", "suffix carried to the next block", G + "_adl_reader.py")])
p("R02", "Sampler shards cover the dataset exactly, without overlap",
  "For every sampler and every combination of batch size, worker count, data-parallel degree, epochs, shuffling and drop-last, the batches of all workers and shards together contain every element of the dataset the same number of times per epoch, apart from explicit padding or dropping of an incomplete tail. Every batch but the last is full, and the advertised length equals the number of batches produced.",
  ["inputs", "configurations"], "all dataset sizes, batch sizes, worker and data-parallel counts, epochs",
  "Sampler tests use one size that divides evenly.",
  [G + "samplers.py", G + "_adl_reader.py", G + "graph_dataset.py"], [("shard arithmetic of the range, file, CSV and graph samplers", G + "samplers.py")], ["sampler iteration", "len()"])
p("R03", "Prefetching delivers every batch exactly once, ends, and surfaces errors",
  "Iterating over a prefetching generator yields exactly the results of querying the graph for each batch the sampler produced, each once, and then stops, under every interleaving of the fetch threads and consumer and for every queue size and thread count; asking for more after the end keeps signalling the end instead of blocking. If the sampler or a query raises, iteration raises that error instead of hanging, ending silently or delivering something that is not a batch, and closing early never hangs.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of producers and the consumer, all failing positions, all queue/thread sizes",
  "test_prefetch runs one free-running schedule and needs the native library, so it does not even run here.",
  [G + "prefetch.py"], [("bounded executor, bounded queue and completion markers", G + "prefetch.py")], ["generator output", "raised errors"],
  [("queue", "prefetched results and completion markers", G + "prefetch.py")])
p("L01", "Clients start after all servers; servers outlive every client; nothing hangs",
  "A synchronized client only connects after every expected server has announced it is ready, and a synchronized server keeps running until every registered client has been closed or its timeout expires. After everyone closes normally no synchronization file is left, each participant ends, and a participant whose peers never show up fails with a timeout error and releases the others instead of hanging; closing twice is harmless.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of start and close steps of any number of servers and clients, with late, missing or crashed participants",
  "test_synchronized runs three fixed orders with real sleeps.",
  [G + "backends/snark/synchronized.py", G + "backends/snark/client.py"],
  [("marker files per server and client", G + "backends/snark/synchronized.py")], ["marker files", "wrapped client and server construction and reset"],
  [("marker files", "snark_<i>.server / snark_<i>.client", "sync directory")])
p("L02", "Workers agree on server roles, addresses and partitions",
  "For every supported launcher and cluster shape exactly one worker per host starts a server, server indices are 0..hosts-1 without gaps, and every worker has a distinct client rank. When addresses are discovered automatically all workers end with the same address list in which position i is the address announced for server i, and the servers together load every graph partition exactly once.",
  ["configurations", "schedules"], "all host/worker layouts, launchers, server and partition counts, and interleavings of discovery",
  "Tests check a few fixed environment-variable settings.",
  [G + "backends/snark/client.py", S + "distributed.py", S + "meta.py"],
  [("index computation per launcher", G + "backends/snark/client.py"), ("address files", G + "backends/snark/client.py"), ("partition split over servers", S + "distributed.py")], ["server start arguments", "server list"])
p("E01", "Topology queries return exactly the stored graph",
  "Node types, neighbour lists and neighbour counts returned by the engine are those of the input graph for every requested node, in request order, restricted to exactly the requested edge types in whatever order they are listed, with ids, types and weights intact and duplicates preserved. Unknown nodes give the default type and no neighbours, counts always equal the length of the neighbour list, and results do not depend on how the graph was partitioned, which partitions were loaded together or the storage kind.",
  ["inputs", "configurations", "histories"], "all graphs, partitionings, query node lists (unknown and repeated ids) and edge type selections",
  "The native tests do not run in this environment and use a few small graphs.",
  [C + "graph/graph.cc", C + "graph/partition.cc", C + "py_graph.cc", S + "client.py", S + "local.py"],
  [("node map over partitions", C + "graph/graph.cc"), ("per type edge ranges", C + "graph/partition.cc"), ("marshalling", S + "client.py")], ["client query results"])
p("E02", "Feature queries return exactly the stored values",
  "Dense, sparse and string features of nodes and edges come back byte-exact for every data type and requested size, in request order; unknown nodes or edges and absent features give zeros, an empty sparse entry or an empty string, and a requested size larger or smaller than the stored value is zero-padded or truncated without touching neighbouring values. The results do not depend on the partitioning, the storage kind, or on which other features or nodes are requested in the same call.",
  ["inputs", "configurations"], "all graphs, feature layouts, dtypes, sizes, node/edge lists",
  "Tests request a few features with matching sizes from tiny graphs.",
  [C + "graph/partition.cc", C + "graph/graph.cc", C + "py_graph.cc", S + "client.py", S + "local.py"],
  [("feature index lookup and copy", C + "graph/partition.cc"), ("sparse/string callbacks", S + "client.py")], ["client query results"])
p("E03", "Temporal queries see exactly the graph alive at the given time",
  "A query made at time t behaves like the same query on the graph restricted to the edges created at or before t and not yet removed at t, for neighbour lists, counts, all neighbour samplers and edge features; feature queries return the latest version that started at or before t. The last-created query returns the requested number of most recently created edges among those alive at t, and reported creation times are the stored ones.",
  ["inputs", "histories"], "all lifetimes, watermarks, query times (including 64-bit times and exact boundary times), orders of edges",
  "Native tests use one small temporal graph and times far from the boundaries.",
  [C + "graph/partition.cc", C + "graph/graph.cc", S + "client.py", S + "local.py"],
  [("timestamp filters per edge range", C + "graph/partition.cc")], ["client query results with timestamps"])
p("E04", "Neighbour sampling returns only eligible neighbours, fully shaped",
  "Every neighbour-sampling strategy returns for each requested node exactly the requested count of entries, each a stored neighbour of an eligible type with its true type, weight and creation time, or the defaults where no neighbour is eligible or without replacement runs out. Without replacement no stored edge is returned twice and all are returned when the count allows; with replacement an eligible neighbour fills every slot, and zero-weight edges are never drawn by weight.",
  ["inputs", "configurations"], "all graphs, partitionings, edge types, counts, strategies, seeds",
  "Native tests sample a few nodes with one seed.",
  [C + "graph/partition.cc", C + "graph/reservoir.cc", C + "graph/graph.cc", C + "py_graph.cc", S + "client.py", S + "local.py"],
  [("weighted, uniform and reservoir samplers", C + "graph/partition.cc")], ["client sampling results"])
p("E05", "Sampling frequencies follow the weights",
  "Over many draws, weighted neighbour, node and edge sampling choose each element with probability proportional to its weight, and uniform sampling (with and without replacement) chooses every eligible element equally often; random walks weigh the way back by 1/p and new ground by 1/q. This holds for every split of the elements over types, partitions and servers.",
  ["inputs", "configurations"], "all weights, partition/shard splits, counts",
  "Native tests check means on one layout with loose tolerances.",
  [C + "graph/partition.cc", C + "graph/sampler.cc", C + "graph/reservoir.cc", C + "distributed/client.cc", S + "local.py"],
  [("prefix sums, alias tables, reservoir merge", C + "graph/"), ("second order walks", C + "py_graph.cc")], ["client sampling results", "random_walk"])
p("E06", "Global node and edge samplers return existing elements of the asked types",
  "Sampling nodes or edges returns exactly the requested number of elements, all stored and of the requested types, with the right types reported, for every strategy, type set, partitioning and loaded subset. Sampling without replacement never repeats an element within one pass and returns all of them when asked for as many as exist, and samplers created with different types or strategies do not influence each other.",
  ["inputs", "configurations", "histories"], "all type layouts, strategies, counts, sequences of sampler calls",
  "Native tests use one or two samplers on tiny graphs.",
  [C + "graph/sampler.cc", C + "py_graph.cc", S + "client.py", S + "local.py"],
  [("sampler factories per partition and type", C + "graph/sampler.cc"), ("sampler cache", S + "local.py")], ["client sampling results"])
p("E07", "A distributed graph answers like the local graph, in any reply order",
  "Connected to servers that together hold all partitions, the distributed client gives for every query the same answer as a local engine over the same partitions (up to the order of a node's neighbours coming from different servers), for every assignment of partitions to servers, also when a node's data is spread over several servers. The answer does not depend on the order in which servers reply or on the number of client threads; for random samples the draw may differ but stays a valid one.",
  ["schedules", "configurations", "inputs"], "all partition-to-server assignments, reply orders, client thread counts, queries",
  "Native distributed tests run over loopback with whatever reply order happens and do not run here.",
  [C + "distributed/client.cc", C + "distributed/graph_engine.cc", C + "distributed/graph_sampler.cc", C + "distributed/call_data.cc", C + "distributed/server.cc", C + "graph/merger.h", S + "distributed.py", S + "client.py"],
  [("merge of shard replies", C + "distributed/client.cc"), ("shard side evaluation", C + "distributed/graph_engine.cc")], ["distributed client query results"])
p("E08", "A failing server is reported, never turned into partial data",
  "If any server needed by a query fails, the caller gets an error (after the configured number of retry attempts) and never a result silently missing that server's part; when a retry succeeds the result is complete. After the server recovers the same client gives correct results again, and failed calls never hang.",
  ["fault_sequences", "schedules"], "all subsets and moments of failing servers, all query kinds, retry settings",
  "No test injects a server failure.",
  [C + "distributed/client.cc", S + "client.py"], [("status check of each reply", C + "distributed/client.cc"), ("retry decorator", S + "client.py")], ["distributed client results and errors"])
p("E09", "Random walks and PPR neighbours follow stored edges only",
  "A random walk returns for every start node the start node followed by the requested number of steps, each along a stored edge of an allowed type (alive at the given time) or back to the node it came from, and the default node only from where there is no way on. Personalized-PageRank neighbours are the highest scoring distinct nodes, at most the requested number with padding after them, and their scores approximate the page rank over the allowed edges within the asked precision.",
  ["inputs", "configurations"], "all graphs, walk lengths, return/in-out parameters, edge types, seeds",
  "Native tests walk on one small graph.",
  [C + "py_graph.cc", S + "client.py", S + "local.py"], [("biased walk over neighbour lists", C + "py_graph.cc"), ("push PPR", C + "py_graph.cc")], ["client results"])
p("E10", "Seeded sampling is reproducible",
  "Asking the same sampling questions with the same seed on the same data gives the same answers: neighbour samples, random walks and samples of nodes or edges, by an explicit seed or through the seed of Python's generator where none is given. What happens around the questions does not matter: lookups in between, other threads with seeds of their own, the kind of storage, the order in which servers reply; another seed draws something else.",
  ["inputs", "configurations", "schedules"], "all graphs, question lists, seeds, storage kinds, interleavings with lookups and threads, reply orders",
  "Tests pin a few draws of single calls; they do not repeat them in other surroundings.",
  [S + "client.py", S + "local.py", C + "graph/sampler.cc", C + "graph/partition.cc", C + "distributed/client.cc"],
  [("seed arguments and defaults", S + "client.py"), ("order of sampler records", C + "graph/sampler.cc"), ("seeds passed to servers", C + "distributed/client.cc")], ["client results of repeated runs"])
p("E11", "Opening, closing and restarting leave all others untouched",
  "Any number of clients, samplers and servers over the same or other graphs may be open in one process, and opening, closing (also twice), dropping or copying one of them, also while others are being asked, leaves the answers of all others unchanged. A closed client or sampler reports an error instead of answering, and a sampler that outlives its client answers correctly or reports an error. When a server was stopped and started again, clients opened before go on with correct answers, and samplers made before report an error or draw correctly, never elements of another sampler.",
  ["histories", "schedules", "fault_sequences"], "all histories of opening, asking, drawing, closing, stopping and starting of clients, samplers and servers, local and remote",
  "Tests open one client, ask it and close it at the end.",
  [C + "py_graph.cc", C + "py_server.cc", C + "distributed/graph_sampler.cc", C + "distributed/client.cc", S + "client.py", S + "server.py", S + "local.py", S + "distributed.py"],
  [("reset of graphs, samplers and servers", C + "py_graph.cc"), ("table of samplers on a server", C + "distributed/graph_sampler.cc"), ("copies of clients", S + "distributed.py")], ["answers and errors of clients and samplers"])
p("D01", "Graph data download fetches everything the requested partitions need",
  "Fetching a graph from remote storage brings the metadata and every file of every requested partition, including lifetimes, features and sampling tables, and nothing is missing whichever mix of local and remote locations is used. Querying the fetched copy gives the same answers as the original, and closing the client or server removes it.",
  ["inputs", "configurations"], "all partition subsets, mixes of locations, graph kinds (temporal or not)",
  "No test covers fetching from another filesystem.",
  [S + "_downloader.py", S + "client.py", S + "server.py"], [("file patterns per partition", S + "_downloader.py")], ["files in the local copy"])
p("U01", "Uploaded data arrives whole, once and in order",
  "Every chunk the data lake writer accepts (a written text, empty or not, or a group of at most the asked number of lines) is in the store once close has returned or the with block was left, also by an exception: exactly once, whole, in files under the given prefix, each holding at most the asked number of chunks in the order of writing. When a store call fails, nothing is stored twice, torn or mixed up, and every call of write, writelines and close still returns. The writer then says that it accepts no more, as it does after closing.",
  ["schedules", "configurations", "inputs", "fault_sequences"], "all interleavings of caller, processes, threads and monitors, all queue sizes, numbers of processes, threads, lines per chunk and chunks per file, and a storage failure at any call",
  "No test runs the writer at all: it needs a storage account, several processes and failures at the right moment.",
  [G + "adl_uploader.py", G + "_adl_reader.py"],
  [("bounded queues, end markers and monitors", G + "adl_uploader.py"), ("credentials", G + "_adl_reader.py")], ["files in the store", "results of write, writelines and close"])
p("X01", "Built datasets hold the raw graph and keep training apart from testing",
  "Building a citation, protein or post graph from its raw files, downloaded or local, gives a graph with every node once with its features (scaled by the training nodes where the dataset says so), label and split, and every link between known nodes in both directions. A link is a training edge exactly when both ends are training nodes; the sizes and order of the split follow the asked ratio, building again gives the same split, and the lists of nodes written beside the graph agree with it. This holds for any number of partitions.",
  ["inputs", "configurations"], "all raw graphs (unknown, repeated and self links, any labels and features), training ratios, random or ordered splits, partition counts",
  "Tests build the original datasets, mostly with one partition, and compare totals and a few rows.",
  [G + "data/data_util.py", G + "data/cora.py", G + "data/citeseer.py", G + "data/ppi.py", G + "data/reddit.py"],
  [("split and edge list", G + "data/data_util.py"), ("reading of raw files", G + "data/ppi.py")], ["answers of the dataset's client", "lists of nodes in the output folder"])
p("G01", "Graph operators keep their structural definitions",
  "A sampled subgraph contains exactly the nodes reachable within the requested hops and exactly the stored edges leaving nodes fewer hops away (each once in a 0/1 adjacency matrix, with reverse edges and self loops as asked), multi-hop sampling keeps consistent positions between hops, and skip-gram generation yields exactly the pairs of path positions within the left and right windows. None of these depends on duplicates in the input or on the order in which the engine returns neighbours.",
  ["inputs"], "all graphs, hop counts, paths and window sizes",
  "The tests for these need the native library or check one example.",
  [G + "graph_ops.py", G + "multihop.py"], [("gen_skipgrams, sub_graph, sample_neighbors_multihop", G + "graph_ops.py")], ["operator results"])
p("P01", "Graph preprocessing samples are true subgraphs of the asked size",
  "Forest-fire sampling returns exactly the requested number of distinct nodes of the input graph joined only by edges of the input, and always terminates (samples larger than the graph are refused). The quality metrics of a graph equal their textbook definitions.",
  ["inputs"], "all graphs, sizes, probabilities, seeds",
  "Tests use a few fixed graphs.",
  [S + "preprocess/sampler/forest_fire.py", S + "preprocess/sampler/metric.py"], [("burning process", S + "preprocess/sampler/forest_fire.py")], ["returned graph", "metric values"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d in P: jsonschema.validate(d, sch)
    print(len(P))
