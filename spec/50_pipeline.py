P("P17", "Properties on demand are those of the present group, computed once, overridable",
  "Reading a property from a source, a member of a group or a group gives the value its task computes from the current membership: adding, removing, merging or regrouping sources makes every group-level property and every member property derived from it fresh at the next read, and nothing is recomputed otherwise. A value set explicitly wins over the task, indexed instances are kept apart, a property without a task or value raises PropertyNotFoundException. Property ids are equal, ordered and hashed by type and index. Tasks are created once per id, from any thread.",
  ["inputs", "histories"], "histories of up to 40 reads, additions, removals, merges and explicit values over groups of up to 6 sources, tasks which read other properties, 4 threads asking the task registry",
  "The existing tests read a handful of properties of one fixed group.",
  ["SEFramework/src/lib/Source/EntangledSource.cpp", "SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp", "SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp", "SEFramework/src/lib/Source/SimpleSourceGroup.cpp", "SEFramework/src/lib/Task/TaskProvider.cpp", "SEFramework/src/lib/Task/TaskFactoryRegistry.cpp", "SEFramework/src/lib/Property/PropertyHolder.cpp", "SEFramework/SEFramework/Property/PropertyId.h"],
  [("member of a group", "SEFramework/src/lib/Source/EntangledSource.cpp"), ("group with on-demand properties", "SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp"), ("task cache", "SEFramework/src/lib/Task/TaskProvider.cpp")],
  """A reference keeps the members, explicit values and a cache-free definition of every test task (own id, sum over the group, a property of a group property);
every read is compared and task invocations are counted. Found and fixed: a group member raised another exception than documented for a property without a task.""",
  observe=["property values and exceptions", "task invocations"])

P("P18", "Grouping and pipeline stages lose, duplicate and reorder nothing",
  "Segmentation, partition, prefetch-less grouping, deblending and output form a chain in which every source reaches the end exactly once. After grouping by a criterion, every group is a connected set of the criterion's relation and different groups are unrelated, as far as the maximal group size allows; no group is larger than that size and sources come out as soon as a process-sources signal selects them, with the group they belong to. Partition steps replace a source by its parts, in order; signals and sources keep their order at every observer.",
  ["inputs", "histories"], "streams of up to 40 sources with overlaps in chains and clusters, group ids, size limits 1 to 10, signals at any position, partition steps which drop, keep or split",
  "The existing tests feed two or three sources with a fixed criterion.",
  ["SEFramework/src/lib/Pipeline/SourceGrouping.cpp", "SEFramework/src/lib/Pipeline/Partition.cpp", "SEFramework/src/lib/Pipeline/Deblending.cpp", "SEFramework/src/lib/Pipeline/Segmentation.cpp", "SEImplementation/src/lib/Grouping/AssocGrouping.cpp", "SEImplementation/src/lib/Grouping/SplitSourcesGrouping.cpp", "SEImplementation/src/lib/Grouping/MoffatGrouping.cpp", "SEImplementation/src/lib/Grouping/OverlappingBoundariesCriteria.cpp", "SEImplementation/src/lib/Grouping/SplitSourcesCriteria.cpp", "SEImplementation/src/lib/Grouping/AssocCriteria.cpp", "SEImplementation/src/lib/Grouping/LineSelectionCriteria.cpp", "SEFramework/SEFramework/Pipeline/PipelineStage.h"],
  [("grouping by criterion", "SEFramework/src/lib/Pipeline/SourceGrouping.cpp"), ("grouping by key", "SEImplementation/src/lib/Grouping/AssocGrouping.cpp"), ("partition", "SEFramework/src/lib/Pipeline/Partition.cpp")],
  """The reference is a union-find over the relation, updated in stream order; the histories also run against AssocGrouping and SplitSourcesGrouping with their keys.
Sources with assoc group id 0 are left out: AssocGrouping puts them all in one group while AssocCriteria never groups them, and nothing says which is meant.""",
  observe=["groups and sources at the end of the chain, in order"])

P("P19", "The catalogue holds each source once, in order, with the columns asked for",
  "A row holds exactly the columns of the enabled output properties, in the order asked for and each once, with name, unit, description, type and the value of the right instance of the property; unknown outputs are refused. Every source gives one row, in order, whatever the flush size, the number of flushes and the format (ASCII, FITS, LDAC), and parts go to their own tables. The LDAC image header has well-formed cards which read back as the image's metadata, gain and rms without loss. Flags combine as sets of fixed bits and print as such.",
  ["inputs", "histories"], "up to 8 columns of 4 properties with 2 rounds of instance naming, any sequence of up to 40 outputs and flushes, up to 4 parts, metadata of every type with strings of up to 68 characters",
  "No test covers the output classes.",
  ["SEFramework/SEFramework/Output/OutputRegistry.h", "SEFramework/src/lib/Output/OutputRegistry.cpp", "SEImplementation/SEImplementation/Output/FlushableOutput.h", "SEImplementation/SEImplementation/Output/AsciiOutput.h", "SEImplementation/SEImplementation/Output/FitsOutput.h", "SEImplementation/src/lib/Output/LdacOutput.cpp", "SEFramework/SEFramework/Source/SourceFlags.h", "SEFramework/SEFramework/Output/Output.h"],
  [("rows of the catalogue", "SEFramework/src/lib/Output/OutputRegistry.cpp"), ("flushing", "SEImplementation/SEImplementation/Output/FlushableOutput.h"), ("LDAC header", "SEImplementation/src/lib/Output/LdacOutput.cpp")],
  """The table writers of Alexandria are stand-ins which append to a text file, so the bytes of FITS tables are not claimed; which rows are handed to which HDU in
which order is. Found and fixed: LDAC keywords rounded to 7 digits, long string keywords refused, SATURATED could not be printed, listing outputs raised an exception.""",
  observe=["rows, batches, file contents, header cards"])

P("P20", "Threads deliver every source once, complete and in order, and always end",
  "With any number of threads, queue size and schedule, the prefetcher passes sources and signals on in the order they came, each source once and with its properties computed, one at a time, holding no more sources than its queue allows; the measurement stage measures every group once before passing it on; behind the sorter the groups come out as without threads, and without it the same groups in some order. When a synchronisation or stop returns, everything sent before has been delivered. When a worker fails, a waiting caller gets the exception, and nothing hangs, crashes or is delivered twice; there are no data races.",
  ["inputs", "schedules", "faults"], "0 to 6 threads, queues of 1 to 12 sources, up to 3 frames of up to 60 sources and signals, groups by a random graph with size limits, sources dropped by deblending, a failing source at any place, random delays at every mutex operation, source addresses reused at once",
  "No test starts the prefetcher, the measurement threads or the sorter; races need particular schedules.",
  ["SEImplementation/src/lib/Prefetcher/Prefetcher.cpp", "SEImplementation/SEImplementation/Prefetcher/Prefetcher.h", "SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp", "SEImplementation/SEImplementation/Measurement/DummyMeasurement.h", "SEMain/src/lib/Sorter.cpp", "SEFramework/src/lib/Pipeline/SourceGrouping.cpp"],
  [("prefetcher output loop", "SEImplementation/src/lib/Prefetcher/Prefetcher.cpp"), ("measurement threads", "SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp"), ("sorter", "SEMain/src/lib/Sorter.cpp")],
  """The whole chain runs twice, with threads and as the same stages without any, and the delivered groups are compared. Schedules are perturbed: pthread_mutex_lock and
unlock are interposed and yield or sleep from a random stream (harness/jitter.h), polling intervals are a thousand times shorter, and the memory of a source is
reused at once. Everything also runs under ThreadSanitizer without the interposition. Alexandria's ThreadPool and Semaphore are stand-ins with the semantics the
callers rely on. The queue limit of the measurement stage (accepted but never applied) is not claimed. Found and fixed: a source lost and a hang when an address
is reused, notification of a destroyed prefetcher, a hang when a worker fails while the queue is full, a crash when threads were never started, groups lost by an early stop.""",
  observe=["order and content of deliveries", "exceptions", "sanitizer reports", "termination"])

P("P21", "Detections are the connected pixels above threshold; splitting conserves pixels",
  "The detections of a frame are exactly the 8-connected components of the pixels whose filtered value exceeds the threshold times the square root of the filtered variance, each once, for Lutz and breadth-first labelling (which leaves out those beyond its size limit), for any tiling; a line-wise labelling publishes a detection when the line below it has been read and asks for the processing of what lies above its window. Partition steps keep or drop a source by their rule, or split it into parts which share out its pixels; multi-threshold splits happen exactly where two branches hold more than the contrast's share of the light, and each branch stays whole. Cleaning merges a source whose pixels are explained by its neighbours into the one which explains most. Parts and merged sources keep frame and detection id.",
  ["inputs"], "images of up to 70x70 pixels of 7 patterns (spirals, combs, rings, checkerboards, zigzags, random walks, percolation) with extreme values, blobs on noise with any threshold, variance, filter, contrast, levels and areas, groups of up to 6 sources",
  "The existing tests label a few fixed images and split two 4x1 images.",
  ["SEImplementation/src/lib/Segmentation/Lutz.cpp", "SEImplementation/src/lib/Segmentation/LutzSegmentation.cpp", "SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp", "SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp", "SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp", "SEImplementation/src/lib/Partition/MinAreaPartitionStep.cpp", "SEImplementation/src/lib/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.cpp", "SEImplementation/src/lib/Deblending/Cleaning.cpp", "SEFramework/src/lib/Pipeline/Segmentation.cpp", "SEImplementation/SEImplementation/Property/SourceId.h"],
  [("line-wise labelling", "SEImplementation/src/lib/Segmentation/Lutz.cpp"), ("breadth-first labelling", "SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp"), ("multi-threshold partition", "SEImplementation/src/lib/Partition/MultiThresholdPartitionStep.cpp"), ("cleaning", "SEImplementation/src/lib/Deblending/Cleaning.cpp")],
  """References: a flood fill; a recursive component tree for the multi-threshold definition; steepest ascent for the attractors; the sum of the neighbours' models for the
cleaning. Cases within rounding of a threshold are discarded. Which part gets a pixel outside all branches is random, so only that exactly one gets it and that
the seed decides is claimed. Found and fixed: fragments of too large detections published, attractors read the wrong pixels of the stamp and gave parts without id,
partition and cleaning lost the detection id.""",
  observe=["published sources, their pixels, ids, frame, order of publication and signals"])
