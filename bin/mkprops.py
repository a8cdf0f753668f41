import json
P=[]
CORE='paladin-core/src/'
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=[f if f.startswith('paladin-') else CORE+f for f in files],mechanism=[dict(name=mech,where=', '.join(files))]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b) for a,b in state]
    if observe: d['anchors']['observe_at']=observe
    if hook is not None: d['anchors']['hook_needed']='cfg(paladin_verif) accessors / preemption points; the verdict is on observable behaviour only' if hook else None
    P.append(d)

p('C01','Exactly-once queues hand each message to exactly one consumer, in order',
 "Every message published to an exactly-once in-memory queue is handed to exactly one of its consumers, unaltered, and messages published one after another are handed out in that order. A consumer that is waiting while a message is available is always notified, and a consumer that goes away while waiting (even after having been notified) never takes a message with it or leaves one stranded.",
 ['schedules','histories'],"all interleavings of publishes, consumer declarations, polls and consumer drops by any number of producers and consumers sharing the queue through any clone of the connection",
 "The unit tests publish one or a few messages to one or two consumers under tokio's default schedule with 10 ms timeouts; they never drop a waiting consumer, never check order across consumers, and never control who is woken.",
 ['queue/in_memory.rs'],"Messages sit in a lock-free FIFO paired with a counting semaphore; a consumer first acquires a permit, then pops.",
 [('messages','published, not yet handed out'),('num_messages','number of poppable messages; waiting consumers queue here')])

p('C02','Broadcast queues deliver every message to every subscribed consumer once',
 "Each message published to a broadcast in-memory queue is delivered exactly once to every consumer whose subscription completed before the publish began, whatever the other consumers do. Each consumer sees the messages of one publisher in publication order, a waiting consumer is notified, and declaring a consumer name again attaches to the same subscription rather than creating a second one.",
 ['schedules','histories'],"all interleavings of publishes (by several publishers), subscriptions, polls and consumer drops, for both delivery modes",
 "The tests run a handful of fixed publish-first or publish-last sequences; they do not subscribe in the middle of a history, do not race publishers and never check per-consumer order.",
 ['queue/in_memory.rs'],"Per-consumer queues in a concurrent map; publish walks the map and pushes to every consumer that has not yet seen the message's id.",
 [('consumers','per-consumer pending messages'),('seen','ids already handed to the consumer')])

p('C03','Persistent broadcast retains messages published while nobody listens',
 "A message published to a persistent broadcast queue while it has no consumers is retained, and the retained messages are replayed, in order and exactly once, to the first consumer that subscribes afterwards; a later consumer does not get them again. A message published concurrently with the first subscription is delivered to at least one consumer and to none of them twice. With ephemeral delivery a message published while there are no consumers is never delivered.",
 ['schedules','histories','configurations'],"all histories and interleavings of publish and subscribe, including a subscription racing a publish at any point inside either operation, for both delivery modes",
 "The tests only publish everything first and then subscribe; a subscription landing between the steps of a publish is never exercised, and ephemeral mode is not tested.",
 ['queue/in_memory.rs'],"Publish stores (id, message) in the history iff the consumer map is empty, then walks the consumer map; subscribing drains the history into the new consumer's queue and marks the ids as seen.",
 [('history','retained messages'),('message_counter','unique message ids')],hook=True)

p('C04','A queue or channel name denotes one queue until it is deleted',
 "Declaring or getting the same name, through any clone of a connection or factory, always reaches the same queue with the options of its first declaration, and different names never share messages. Deleting a queue, or releasing or dropping the lease of a channel, forgets that queue only: its undelivered messages are gone, a later declaration of the name starts empty, and handles and consumers obtained earlier stay usable among themselves. Identifiers issued for new channels are distinct.",
 ['histories'],"all sequences of declare / delete / get / issue / lease drop / publish / consume over several names and connection clones",
 "No unit test declares a name twice with different options, deletes a queue that is in use, or drops a lease.",
 ['queue/in_memory.rs','channel/queue.rs','channel/mod.rs','runtime/dynamic_channel.rs'],"A map from name to queue handle shared by clones of the connection; channels resolve their name at every use; a lease deletes its queue on drop.",
 [('queues','name to queue handle')])

p('C05','A coordinated receiver never ends while a sent message is unhandled',
 "As long as the sender of a coordinated channel is open, or any successfully published message has not been both received and acknowledged, the receiver does not report the end of the stream. Closing or dropping the sender at any moment, including while publishes are in flight on other threads, never makes the receiver end before each successfully published message has been yielded.",
 ['schedules'],"all interleavings of concurrent publishes, close, drop of the sender, polls, acks and nacks, at the granularity of the individual steps of each operation",
 "There is no unit test of the coordinated channel; the directive tests only use it with in-order, in-process timing.",
 ['channel/coordinated_channel/mod.rs','channel/coordinated_channel/coordinated_publisher.rs','channel/coordinated_channel/coordinated_stream.rs'],"An atomic counter of unacknowledged sends and a closed flag shared by the two ends.",
 [('closed','sender was closed or dropped'),('num_pending_sends','published but unacknowledged messages')],hook=True)

p('C06','A coordinated receiver ends promptly once closed and fully acknowledged',
 "Once the sender has been closed or dropped and every successfully published message has been acknowledged, the receiver reports the end of the stream, and a task waiting on it is woken to observe this, whichever of the two happened last and whichever task received the earlier items. A publish that failed does not count as outstanding.",
 ['schedules','fault_sequences'],"all orders of publish (success or failure), close/drop, poll (from any task) and ack/nack",
 "No test waits on the receiver when the close or the last ack happens, moves the receiver between tasks, or makes a publish fail; a hang would need exactly that.",
 ['channel/coordinated_channel/mod.rs','channel/coordinated_channel/coordinated_publisher.rs','channel/coordinated_channel/coordinated_stream.rs'],"The waiting receiver must be woken on the transition to (closed and nothing pending); failures must undo the pending count.",
 [('num_pending_sends','published but unacknowledged messages')])

p('C07','Publishing after close fails; acknowledgements count once',
 "After the sender of a coordinated channel has been closed, publishing returns an error and transmits nothing. Acknowledging a message any number of times, by ack or nack in any mixture, from any thread, counts exactly once. A composed acknowledger performs its second acknowledgement only after the first one succeeded, and reports the failure of either.",
 ['schedules','histories','fault_sequences'],"all sequences and interleavings of close, publish, ack, nack (repeated), with each underlying acknowledgement succeeding or failing",
 "Nothing in the test suite publishes after close, acks twice, or uses an acknowledger that fails.",
 ['channel/coordinated_channel/coordinated_publisher.rs','channel/coordinated_channel/coordinated_stream.rs','acker.rs'],"Closed flag checked by publish; per-message acked flag; sequential composition of ackers.",
 [('did_ack','message already acknowledged')])

p('C08','The contiguous assembler pairs only neighbours, in order, losing nothing',
 "Offering a value to the assembler either stores it or returns it paired with a stored value that is directly adjacent to it, lower one first; when a stored value is adjacent at the time of the call a pair is returned. Values are never lost, duplicated, altered or handed out twice, by any sequence of offers and removals and by any number of threads.",
 ['schedules','histories','inputs'],"all insertion orders of any set of disjoint ranges, and all interleavings of concurrent offers and removals",
 "Three unit tests offer one or two fixed ranges from a single thread.",
 ['contiguous/queue.rs','contiguous/mod.rs'],"A concurrent ordered map of take-once cells, searched to the right then to the left of the offered key.",
 [('values','stored ranges keyed by their start')])

p('C09','Fold computes the in-order combination of the input elements',
 "Folding a stream whose indices are 0..n-1, arriving in any order, yields the combination of all elements in index order, each used exactly once; the operation only needs to be associative, never commutative. An empty stream yields the identity, and a single element is returned as it is without running the operation.",
 ['schedules','inputs'],"all n, all arrival orders and timings of inputs, all completion orders of the combinations on the workers, all associative operations",
 "The existing tests fold small in-order integer inputs with commutative operations under one schedule.",
 ['directive/indexed_stream/foldable.rs','contiguous/queue.rs','directive/mod.rs'],"Contiguous ranges are paired by the assembler, dispatched with the union range as metadata, and re-offered until one range covers the input.",
 [('range','the input indices a partial result covers'),('resolved_input_size','n once known')],hook=True)

p('C10','Fold always completes, with exactly n-1 combinations',
 "For n inputs a fold dispatches exactly n-1 combinations and, provided the input stream ends and every combination succeeds, completes, however the arrival of inputs, the end of the input stream and the arrival of results interleave.",
 ['schedules'],"all interleavings of input arrival, end-of-input detection, result arrival and task publication, for every n",
 "A fold that hangs or repeats work only does so under particular timings (for instance the last result overtaking the end of the input), which the tests' immediately available inputs never produce.",
 ['directive/indexed_stream/foldable.rs','channel/coordinated_channel/coordinated_stream.rs'],"The completion test compares the range of a result with the input size, known only after the input stream has ended.",
 [('resolved_input_size','n once known'),('assembler','partial results waiting for a neighbour')],hook=True)

p('C11','A fold fails with the error when its input or a combination fails',
 "If the input stream yields an error, or a combination fails, or a task cannot be sent or a result cannot be decoded, the fold returns that error instead of a value, and does so without waiting for other inputs or results; it never returns a partial combination.",
 ['schedules','fault_sequences','inputs'],"every position and timing of a single or multiple failures among inputs, combinations and results",
 "Tests cover one failing element and one always-failing operation; not a failure racing the remaining inputs and results, nor transport failures.",
 ['directive/indexed_stream/foldable.rs','task/mod.rs'],"All the activities of the fold run in one select; the first error wins.",hook=True)

p('C12','Map yields exactly one result per input, under its index, then ends',
 "Mapping a stream yields, for every input, exactly one element carrying that input's index and the operation's output for it, in whatever order the workers finish, and ends after the last of them; results can be sorted back into index order and each operation runs for its input once. Results are made available as they arrive, without waiting for the remaining inputs. Mapping a literal yields the single output.",
 ['schedules','inputs'],"all n, all input arrival timings (including an input stream that ends long after its results arrived) and all worker completion orders",
 "Tests map short ready-made lists with three emulated workers and only look at the sorted output; the moment of termination relative to the results is not controlled.",
 ['directive/indexed_stream/functor.rs','directive/indexed_stream/mod.rs','directive/literal/functor.rs'],"A stream that sends the tasks is merged with the receiver's stream; the coordinated channel ends the receiver when the sender is closed and all results are acknowledged.",
 [('idx','index carried as task metadata')],hook=True)

p('C13','A failing map reports the error and never passes off a partial result',
 "If the input stream yields an error, a task cannot be sent, an operation fails fatally or a result cannot be decoded, the stream of results contains that error; a map's output never ends as if complete with an input unaccounted for, and collecting it returns the error.",
 ['schedules','fault_sequences','inputs'],"every position and timing of failures among inputs, sends and results",
 "One test covers an operation that always fails with default timing; input errors in the middle of a stream, send failures and undecodable results are untested.",
 ['directive/indexed_stream/functor.rs','directive/literal/functor.rs','task/mod.rs'],"Errors of the sending half are forwarded into the merged result stream; results carry their error.",hook=True)

p('C14','A worker runs the task once and returns its result to the right job',
 "For every task a worker takes, it runs the operation named by the task on the task's input exactly once per attempt, and sends exactly one result, carrying the task's metadata unchanged and encoded with the task's serializer, to the job named by the task and to no other.",
 ['inputs','schedules','configurations'],"all tasks (jobs, operations, inputs, metadata, serializers) in any order, over any number of workers",
 "Tests only see results through directives of a single job; a duplicated or misrouted result, or the wrong serializer, would go unnoticed by most of them.",
 ['runtime/mod.rs','task/mod.rs','paladin-opkind-derive/src/lib.rs'],"The worker loop: receive, execute, then acknowledge and publish the result to the queue named by the routing key.",hook=True)

p('C15','A terminating failure reaches its job and stops every worker',
 "When an operation fails fatally with the terminate strategy (directly, by exhausting its retries, by panicking, or because its payload cannot be decoded), the job that issued the task receives exactly one error carrying the message of the failure, and every worker is told to stop: an operation in progress sees its abort signal raised and no worker goes on to complete further tasks.",
 ['schedules','fault_sequences'],"every position of the failing task among the tasks of several workers and jobs, whether the other workers are idle or busy",
 "The tests check that the error of an always-failing operation surfaces at the leader; they never look at the other workers or at the abort signal.",
 ['runtime/mod.rs','operation/error.rs','paladin-opkind-derive/src/lib.rs'],"The failing worker publishes an abort-all command on the broadcast channel and the error text on the job's channel; each worker's listener forwards the command to the loop, which raises the abort flag.",
 [('abort_worker_execution','shared abort flag'),('terminated_jobs','jobs not to be processed any more')],hook=True)

p('C16','An ignored failure affects only the task that failed',
 "When an operation fails fatally with the ignore strategy, no result and no error is sent for that task, no worker stops, and every other task, of the same job or of another, before or after it, is still executed and answered as usual.",
 ['schedules','fault_sequences'],"every position of ignored failures among the tasks of one or more jobs on one or more workers",
 "No test uses the ignore strategy.",
 ['runtime/mod.rs','operation/error.rs'],"Failure dispatch by strategy in the worker loop, and the worker's record of terminated jobs.",
 [('terminated_jobs','jobs not to be processed any more')],hook=True)

p('C17','Abort commands are honoured by every worker and touch nothing else',
 "After a worker has received an abort for a job it executes no further task of that job and sends nothing for them, while tasks of other jobs are executed and answered as before. An abort of everything makes every worker stop, whichever other abort commands, in whatever order and however quickly, arrive around it.",
 ['schedules','histories'],"all sequences and timings of abort commands (for one job, another job, repeated, everything) relative to task arrival and execution on several workers",
 "No test sends an abort command.",
 ['runtime/mod.rs'],"A listener task records aborted jobs and signals the loop through a single-slot watch channel.",
 [('terminated_jobs','jobs not to be processed any more'),('ipc_sig_term','latest command, signalled to the running task')],hook=True)

p('C18','Failed operations are retried exactly as their strategy prescribes',
 "An operation failing with a transient error is attempted again according to that error's retry strategy until it succeeds or the prescribed number of retries is used up; it is never run again after a success, and delays between attempts are at least as prescribed. Exhausted retries become a fatal error that carries the last failure and the fatal strategy of the error being retried. A fatal error, whenever it occurs, is never retried and keeps its own fatal strategy.",
 ['inputs','fault_sequences','configurations'],"all finite sequences of outcomes (success, transient, fatal) of the attempts, all retry strategies, limits and fatal strategies",
 "Two doc tests count the attempts of one strategy for one outcome sequence; fatal errors in the middle of retries, delays and the resulting strategy are untested.",
 ['operation/error.rs','paladin-opkind-derive/src/lib.rs'],"Retry loops per strategy in the error module, driven by the code generated for every operation.")

p('C19','Each worker runs one operation at a time and no waiting task is left idle',
 "A worker never runs two operations at once, so a runtime emulating k workers never runs more than k; and as long as a task is waiting and one of its workers is idle, that worker takes it.",
 ['schedules','configurations'],"all numbers of workers and tasks, all operation durations",
 "No test measures concurrency or blocks an operation.",
 ['runtime/mod.rs','config/mod.rs','queue/in_memory.rs'],"Each worker loop awaits the end of one task before polling for the next; all share one exactly-once task queue.",hook=True)

p('C20','Directives sharing a runtime do not see each other',
 "Any number of directives run concurrently on one runtime each get exactly their own results, and a directive that fails to read its input, is dropped half way or finishes early does not disturb the results of the others. When a directive's results are dropped or finished, its result channel is released.",
 ['schedules','histories'],"all combinations and interleavings of concurrent maps and folds, with any of them cancelled at any point",
 "Tests run one directive (chain) at a time per runtime.",
 ['runtime/mod.rs','channel/mod.rs','channel/queue.rs','directive/indexed_stream/foldable.rs','directive/indexed_stream/functor.rs'],"A fresh result channel with its own identifier per directive; tasks carry the identifier; a lease guard deletes the channel on drop.",hook=True)

p('C21','The operation a task names is the operation that is executed',
 "For every program, wherever in it operations are defined (any module, any order, any number up to the identifier range), executing a task built from an operation runs that operation and no other.",
 ['programs'],"all programs defining operations in any arrangement of modules, functions and derive order",
 "Every test program defines its few operations in one module, where registration order happens to coincide with the identifiers.",
 ['paladin-opkind-derive/src/lib.rs','lib.rs','task/mod.rs','operation/mod.rs'],"A compile-time counter gives each operation an identifier; executors are collected in a linker-assembled slice and looked up by identifier.",
 [('OPERATIONS','registered executors')])

p('C22','Dropping a runtime stops its workers and everything they started',
 "After an in-memory runtime has been dropped, its emulated workers take no further task, and no background activity of the runtime or of its workers remains once operations already running have returned.",
 ['histories','schedules'],"drops at every point of the runtime's life: idle, with tasks queued, while operations run, after aborts",
 "No test looks at what is left after a runtime is dropped.",
 ['runtime/mod.rs'],"The drop handler aborts the worker tasks; each worker loop owns a listener task and a periodic cleanup task.",
 [('worker_emulator','handles of the emulated workers')],hook=True)

p('C23','Publishing a stream publishes every item once with bounded concurrency',
 "Publishing a stream of items publishes every item exactly once with at most the requested number of publishes in progress at any time, in any order of their completion, and completes only when all have completed. If the stream or a publish fails, that error is returned, nothing more is read from the stream and no new publish is started.",
 ['schedules','fault_sequences','configurations'],"all item counts, limits (including none), completion orders and failure positions",
 "No test exercises it directly.",
 ['queue/publisher.rs'],"A concurrency-limited loop over the stream.")

p('C24','Messages from a broker are acknowledged once, after being handled',
 "Over AMQP every message taken from a task or result queue is acknowledged or rejected exactly once, with the right delivery; a task is not acknowledged while its operation is still to run or running; a task that fails is rejected, one that succeeds is acknowledged, and an unacknowledged message is held by one consumer at a time.",
 ['schedules','fault_sequences'],"all orders of task execution, success and failure on one or more worker processes sharing a broker",
 "There is no test of the AMQP transport at all.",
 ['queue/amqp.rs','runtime/mod.rs','acker.rs'],"Delivery-tag ack/nack through the acker handed out with every message; prefetch of one.",hook=False)

p('C25','Distributed over AMQP, directives give the same results as locally',
 "With leader and workers as separate runtimes connected only through an AMQP broker, on the default or a configured task bus, maps, folds and their chains deliver exactly the results they deliver in memory; tasks of one task bus are never executed by workers of another.",
 ['schedules','configurations','inputs'],"all numbers of workers, task bus names, serializers and completion orders",
 "There is no test of the AMQP transport at all.",
 ['queue/amqp.rs','runtime/mod.rs','runtime/dynamic_channel.rs','channel/queue.rs','config/mod.rs'],"Queues are declared by name on the broker by both sides; publications are routed by queue name.",hook=False)

p('C26','AMQP broadcasts reach every subscribed consumer',
 "Over AMQP every message published to a broadcast channel is delivered to every consumer subscribed to it before the publication, in particular an abort command reaches every worker.",
 ['schedules','histories'],"all numbers of subscribers and messages",
 "There is no test of the AMQP transport at all.",
 ['queue/amqp.rs'],"A fanout exchange with the queue(s) bound to it.",hook=False)

p('C27','A chain of directives equals its sequential evaluation',
 "Running a chain of maps ended by a fold (or by collecting in index order) yields the value of the same functions applied sequentially to the input, with stages overlapping in any way; the first failure of any stage makes the whole chain fail rather than produce a value.",
 ['schedules','inputs','programs'],"all chain shapes, input sizes and interleavings of the stages",
 "The doc tests run two or three fixed chains over short integer lists.",
 ['directive/mod.rs','directive/indexed_stream/functor.rs','directive/indexed_stream/foldable.rs'],"Each directive's output stream is the next one's input stream, all driven on demand by the last one.",hook=True)
p('C28','An AMQP consumer skips what it cannot decode, and ends when it cannot go on',
 "A message on an AMQP queue that cannot be decoded is rejected and does not keep its consumer from receiving the messages after it, whatever the prefetch limit. When a consumer can receive nothing more, its connection having been closed or lost or its queue deleted, its stream ends.",
 ['histories','inputs','fault_sequences'],"all sequences of good and undecodable messages, consumers, prefetch limits, and losses of connections and queues between them",
 "There is no test of the AMQP transport at all.",
 ['queue/amqp.rs'],"The consumer stream decodes each delivery and forwards the end of the underlying stream.",hook=False)
p('C29','Values arrive as what they were, in either format, or are refused',
 "A value sent through the system, be it an operation with its captured state, the input or output of a task, its metadata, or the text of an error, arrives at its reader equal to what was sent, with either serializer (Postcard or CBOR), whichever of the two each layer uses, over every queue and broadcast, in memory or on a broker; values sent one after another do not mix. A reader given a message that was cut short refuses it rather than reading another value, and no sequence of bytes makes a reader panic. (CBOR writes an absent value and a present unit alike, and a reader may refuse values nested deeper than fifty levels.)",
 ['inputs','configurations','fault_sequences'],"all values of the data model in any nesting, both serializers for the parts and for the task that holds them, every truncation and corruption of the bytes, every channel a value travels on",
 "The unit tests send small integers and short strings with the default serializer; none nests values, none mixes the two serializers, and none reads a damaged message.",
 ['serializer/mod.rs','task/mod.rs','queue/in_memory.rs','queue/amqp.rs','operation/error.rs','operation/mod.rs'],"Each layer serializes with the serializer it was given, and a task names the serializer its parts were written with.")
p('C30','The configuration given decides the runtime that is built',
 "Each setting (serializer, runtime, number of workers, broker URI, task bus) has the value given on the command line, else the one given in the environment, else its documented default; an invalid value is refused. Leader and worker built from a configuration use that transport and broker, exchange tasks on the task bus it names (or the default one) in the serialization format it names, and in memory execute exactly as many tasks at a time as it asks for (three by default). Where a broker is needed and none is given or none can be reached, an error is reported; building a runtime never panics.",
 ['configurations','inputs'],"all combinations of settings given, not given or invalid on the command line and in the environment",
 "The unit tests only use the in-memory defaults; none goes through the command line or the environment.",
 ['config/mod.rs','runtime/dynamic_channel.rs','runtime/mod.rs','serializer/mod.rs'],"clap fills the configuration; the runtimes are constructed from it.",hook=False)
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
