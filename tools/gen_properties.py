import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None))
    assert len(title)<=80,title
    P.append(d)
G='pkg/graph/memory/'
p('C01','A graph holds exactly one node per entity UID and all node views agree',
 "After any sequence of creating, adding, upserting and removing nodes, an in-memory graph (directed or undirected) holds exactly one node per entity UID added and not removed since, and lookup by UID, the node list, the neighbours of a node and the end points of edges all show that same node. Adding a UID that is present fails with ErrDuplicateNode and changes nothing unless upsert is given, in which case the new node takes the place of the old one and keeps its edges; adding a node whose ID another node uses panics and changes nothing. Looking up an absent UID fails with ErrNodeNotFound, removing one is a no-op, a node of a foreign type is refused with ErrInvalidNode, creating a node for a UID that is present returns the stored node, and otherwise a created node never has the ID of a node in the graph or of another created node. Returned lists belong to the caller.",
 ['histories','inputs'],'every sequence of node and link operations over a few colliding UIDs, IDs and options, on both kinds of graph',
 'The tests add a handful of fresh nodes once and never combine duplicate UIDs, colliding IDs, upsert and removal, or compare the different views after each step.',
 [G+'wg.go',G+'node.go',G+'wdg.go',G+'wug.go'],[('UID index kept in step with the underlying graph','pkg/graph/memory/wg.go AddNode/RemoveNode'),('ID allocation','pkg/graph/memory/wg.go NewNode')],
 [('nodes','UID to node index',G+'wg.go')],['Node','Nodes','From','Edge','Edges','NewNode','AddNode','RemoveNode'])
p('C02','Graph edges: link is idempotent, and edges live exactly as long as their ends',
 "Linking two present nodes creates one edge with the given weight, attributes and UID, and linking them again returns that same edge unchanged; linking an absent node fails with ErrNodeNotFound, linking a node to itself returns an error, and neither changes the graph. Unlinking removes just that edge and removing a node removes just its incident edges, so that edge lookup (ErrEdgeNotExist without an edge, ErrNodeNotFound without a node), the edge list and the neighbours always show exactly the edges linked and not removed since. Directed graphs keep the two directions apart, and undirected graphs treat a pair as one edge that is found from either end with the queried end as its origin.",
 ['histories','inputs'],'every sequence of link, unlink and node operations on a few nodes, directed and undirected, and every weight and option combination in a small domain',
 'The tests link a fixed pair or two once; they never interleave links, unlinks and removals nor compare edge lookup, edge list and neighbours.',
 [G+'wg.go',G+'edge.go'],[('edge lookup before creation','pkg/graph/memory/wg.go Link'),('incident edges removed by the underlying graph','pkg/graph/memory/wg.go RemoveNode')],
 [],['Link','Unlink','Edge','Edges','From','FromNode','ToNode','Weight'])
p('C03','A subgraph is exactly the neighbourhood of its root up to the depth',
 "The subgraph of a graph for a root and a depth of zero or more holds exactly the nodes whose distance from the root is at most the depth, and a directed edge from u to v for exactly those pairs of its nodes for which the graph has an edge from u to v (for an undirected graph: in both directions). Each edge of the subgraph has the weight and the attributes of the edge it stands for, its attributes are an independent copy, the graph itself is not changed, and what is later added to or removed from one of the two does not show in the other. An unknown root fails with ErrNodeNotFound; if the attributes of an edge of the subgraph cannot be read SubGraph fails, and the graph is unchanged and usable.",
 ['inputs','histories','fault_sequences'],'every directed and undirected graph up to a few nodes, every root and depth, changes of the graph between subgraphs, attributes failing at every call, and long families (paths, stars, cycles)',
 'The tests count nodes for one hand-made graph and look neither at its edges, their weights and attributes, nor at other shapes.',
 [G+'wg.go'],[('bounded breadth first walk, then edges between visited nodes','pkg/graph/memory/wg.go SubGraph')],[],['SubGraph'])
p('C04','DOT output states the whole graph and leaves it usable',
 "The DOT text of a graph is well formed, is a digraph exactly for directed graphs, carries the graph DOT ID and the configured graph, node and edge defaults, and states every node once with its DOT ID and its attributes and every edge once with its attributes and nothing else, whatever characters IDs, keys and values contain (a string that already is a quoted or HTML DOT ID is taken as it is). Producing it changes nothing and never blocks later operations on the graph, including writes.",
 ['inputs','histories'],'every small graph, ID and attribute alphabet with characters that need quoting, and every operation following DOT',
 'The tests only assert that the output is not empty and perform no operation after it.',
 [G+'wg.go',G+'node.go',G+'edge.go','pkg/attrs/memory/dot.go'],[('marshalling under a read lock','pkg/graph/memory/wg.go DOT'),('attributes encoded for DOT','pkg/graph/memory/node.go Attributes')],[],['DOT','DOTID','Attributes'])
p('C05','Concurrent use of a graph is linearizable, race free and never deadlocks',
 "When several goroutines use one in-memory graph at the same time through any of its operations (creating, adding, upserting, looking up, listing and removing nodes, linking, unlinking, edge and neighbour queries, subgraph, DOT), every operation returns, none panics, there is no data race, and all results and the final content are those of some sequential order of the operations that respects their real-time order. In particular concurrent links of one pair create one edge, no edge outlives a removed end, and no two created nodes have the same ID.",
 ['schedules','programs'],'every interleaving of small concurrent programs over shared nodes within a preemption bound',
 'No test uses a graph from more than one goroutine.',
 [G+'wg.go'],[('reader/writer lock held for each whole operation','pkg/graph/memory/wg.go')],[('mu','lock over index and underlying graph',G+'wg.go')],['all graph operations'])
S='pkg/store/memory/store.go'
p('C06','The store behaves as a map of entities with links, singly and in bulk',
 "An entity that was added is returned by Get with its UID, type and attributes (those given with the add, or else its own) until it is deleted; adding it again fails with ErrAlreadyExists and changes nothing, unless upsert is given, which replaces its type and attributes and keeps its links. Getting an absent entity and linking from or to one fail with ErrEntityNotFound, deleting or unlinking absent ones is a no-op, deleting an entity deletes its links, and the graph handle shows exactly the stored entities and links with the attributes they were given. A bulk operation is the same as the single operations in the given order up to the first error, and BulkGet returns all entities in the order asked for, in a list of its own, or an error and nothing. An error that the graph of the store reports is returned, too, and an operation whose context has ended works as usual or fails without effect.",
 ['histories','inputs','fault_sequences'],'every sequence of single and bulk operations over a few colliding UIDs, options and list shapes (empty, duplicates, absent elements), and a failure of the graph in every call',
 'The tests call each operation once or twice on fresh stores and do not look at what Get and BulkGet return or at upsert.',
 [S,'pkg/store/memory/options.go'],[('entities are graph nodes','pkg/store/memory/store.go add/get'),('bulk operations loop over singles under one lock','pkg/store/memory/store.go')],[('g','backing graph',S)],['Add','Get','Delete','Link','Unlink','Bulk*','Graph'])
p('C07','Concurrent use of the store is linearizable and bulk operations are atomic',
 "When several goroutines use one in-memory store at the same time, every operation returns, none panics, there is no data race, and all results and the final content are those of some sequential order of the operations that respects their real-time order, in which each bulk operation is a single step.",
 ['schedules','programs'],'every interleaving of small concurrent programs of single and bulk operations on shared entities within a preemption bound',
 'No test uses a store from more than one goroutine.',
 [S],[('store lock held for each whole operation','pkg/store/memory/store.go')],[('mu','store lock',S)],['all store operations'])
L='pkg/cache/memory/links.go'
p('C08','The link cache returns exactly the cached links, from both ends',
 "At any time the link cache holds at most one link per ordered pair of end points: the first one put since the pair was last removed, or the last one put with upsert if later. Getting the links from (to) a UID returns exactly the held links whose origin (end) has that UID value, whichever UID object is used to ask, so that a held link is always visible from both of its ends; deleting a UID removes exactly the links from or to it, and clearing removes all. A bulk operation is the same as the single operations in order (a bulk get has an entry for every asked UID that has links), and returned slices are not affected by later operations.",
 ['histories','inputs'],'every sequence of single and bulk operations over links among a few UIDs, including self links and equal UIDs held by different objects',
 'The tests put one or two links with the same UID objects and never compare both directions after upserts and deletions.',
 [L],[('two indexes kept in step','pkg/cache/memory/links.go put/delete')],[('from','links by origin',L),('to','links by end',L)],['Put','GetFrom','GetTo','Delete','Clear','Bulk*'])
p('C09','Concurrent use of the link cache is linearizable and race free',
 "When several goroutines use one link cache at the same time, every operation returns, none panics, there is no data race, and all results and the final content are those of some sequential order of the operations that respects their real-time order, in which each bulk operation is a single step; no reader ever sees a link from one end that is missing from the other.",
 ['schedules','programs'],'every interleaving of small concurrent programs of single and bulk operations on overlapping links within a preemption bound',
 'No test uses the cache from more than one goroutine.',
 [L],[('cache lock held for each whole operation','pkg/cache/memory/links.go')],[('mu','cache lock',L)],['all cache operations'])
PL='pkg/plan/simple/simple.go'
p('C10','A plan holds the last resource added per UID, also under concurrency',
 "A plan returns, for each UID added and not deleted since, the resource last added with that UID value, GetAll returns exactly these resources once each, a lookup of any other UID fails with ErrResourceNotFound, and deleting an absent UID is a no-op. This also holds when several goroutines use the plan at the same time: results are those of some sequential order of the operations that respects their real-time order, with no data race, panic or deadlock, and a returned list is not affected by later operations.",
 ['histories','schedules'],'every sequence of operations over a few UIDs and every interleaving of small concurrent programs within a preemption bound',
 'The tests add and remove one or two resources sequentially.',
 [PL],[('index by UID value under a lock','pkg/plan/simple/simple.go')],[('index','resources by UID',PL)],['Add','Get','GetAll','Delete'])
B='pkg/broker/memory/memory.go'; U='pkg/broker/memory/subscriber.go'
p('C11','The broker delivers each message once, intact and in order',
 "While a broker session stays open, every message whose Pub returned nil is delivered to exactly one Receive on the same topic and on no other topic, with the UID, type, payload and attributes it was published with; nothing else is delivered, a message that was received does not change later, and a Receive that waits takes a message that is available. Messages of one topic are delivered in the order in which they were published, seen from any one receiver and whenever one Pub returned before another began. The only loss allowed is one message per Receive that reports ErrTimeout, and messages published before anybody subscribed are kept for the first subscriber.",
 ['schedules','programs','histories'],'every interleaving of small programs of publishers, subscribers and receivers over topics and capacities (unbuffered, small, default) within a preemption bound, and all short sequential histories',
 'The tests publish a message or two from one goroutine and do not check content, order, loss or duplication under concurrency.',
 [B,U],[('one channel per topic','pkg/broker/memory/memory.go Pub/Sub'),('handler run on the received message','pkg/broker/memory/subscriber.go Receive')],[('topics','queue per topic',B)],['Pub','Sub','Receive'])
p('C12','Broker sessions open, close and reopen cleanly, one at a time',
 "Pub and Sub fail with ErrNotConnected exactly when no session is open; a session is open from Open until Close, or until the broker notices, promptly and by itself, that the context it was opened with was cancelled, and opening an open broker or closing a closed one changes nothing and succeeds. Closing ends every subscription of the session, so that receiving on it fails with ErrSubscriptionInactive, and drops every undelivered message and topic: nothing from one session is ever delivered in, blocks or ends a later one, also when the context of an earlier session is cancelled late. All of this holds when operations run at the same time in any interleaving, without panic, data race or deadlock.",
 ['histories','schedules'],'every short history of open, close, cancel, publish, subscribe and receive over several sessions, and every interleaving of small concurrent programs of them within a preemption bound',
 'The tests open and close one session; reopening, late cancellation and concurrent open/close/publish are never exercised.',
 [B,U],[('session channels and connected flag under the broker lock','pkg/broker/memory/memory.go Open/Close/run')],[('connected','session open',B),('exit','closed when the session ends',B)],['Open','Close','Pub','Sub','Receive'])
p('C13','Blocked broker calls end exactly on their timeout, cancellation or close',
 "A Pub on a full topic and a Receive on an empty one block until a receiver or message turns up, and end without it only when their own timeout expires (ErrTimeout, exactly after the timeout given to the call, or else for Pub that of the broker, or else 5 seconds), when their context is cancelled, when the session is closed or, for Receive, when the subscriber is unsubscribed. A Pub that ends in one of these ways returns an error and its message is never delivered, and a cancelled call affects no other user of the broker. A topic buffers as many messages as the configured capacity (none for 0, 100 if negative), and a closed or cancelled session leaves no goroutine behind.",
 ['configurations','schedules','histories'],'every combination of capacity, timeouts (call, broker, default) and the event ending the wait, in virtual time, and every interleaving of racing events within a preemption bound',
 'Real timers make tests sample a few timings; the tests cover one publish and one receive timeout and no capacity, cancellation or goroutine leak.',
 [B,U],[('select over cancellation, session end, timer and queue','pkg/broker/memory/memory.go publishMsg'),('select over cancellation, timer, session end, unsubscribe and queue','pkg/broker/memory/subscriber.go Receive')],[('size','topic capacity',B),('pubTimeout','broker publish timeout',B)],['Pub','Receive','Open','Close'])
p('C14','Unsubscribing is final, idempotent and affects only that subscriber',
 "After Unsubscribe returned, every Receive begun on that subscriber fails with ErrSubscriptionInactive and takes no message, and a Receive already waiting on it returns (with that error, or with a message that was there for it). Unsubscribing any number of times, from any number of goroutines, before or after the session closed, succeeds, never blocks and never panics. Other subscribers of the same or another topic, with unique IDs of their own, keep receiving all messages, and messages nobody received stay available to them.",
 ['schedules','histories'],'every interleaving of small programs of unsubscribing, receiving, publishing and closing within a preemption bound, and short histories with many subscribers',
 'The tests unsubscribe one subscriber sequentially.',
 [U,B],[('active flag and exit channel','pkg/broker/memory/subscriber.go Unsubscribe'),('asynchronous removal from the broker','pkg/broker/memory/memory.go run')],[('active','subscription alive',U)],['Unsubscribe','Receive','ID','Topic'])
p('C15','Ingested data reaches the digest handler exactly as marshaled',
 "Ingest publishes, on the given topic, exactly one message with the given type and the bytes its marshaler (given to the call, or else to the constructor, or else JSON) makes of the data; if marshaling or publishing fails it returns that error, and after a marshaling failure nothing is published. Digest hands every message it receives, in order and unchanged, to the handler given to the call, or else to the constructor, or else writes the payload to standard output, and passes its context on. It keeps going until receiving or the handler fails, or its context ends, then it returns that error and receives nothing more.",
 ['configurations','fault_sequences','schedules'],'every combination of constructor and call options, every position of an error or cancellation in the sequence, and every interleaving of an ingest-broker-digest pipeline within a preemption bound',
 'The tests construct both and run a single call; options of the constructor, error positions and cancellation are not covered.',
 ['pkg/broker/ingester/simple/ingester.go','pkg/broker/digester/simple/digester.go','pkg/broker/handlers/handlers.go'],[('marshal then publish','pkg/broker/ingester/simple/ingester.go Ingest'),('receive loop','pkg/broker/digester/simple/digester.go handle')],[],['Ingest','Digest','DumpData'])
p('C16','A run calls the scraper once with its plan and all of its options',
 "Running a scraper with a plan calls it exactly once with that plan, the same context (also if it has ended), and the store, broker and marshaler given to the run or else to the runner, for any subset of options given in either place in any order, where the last one given wins, and returns exactly what the scraper returned. Running without a plan returns ErrMissingPlan and does not call the scraper; a run never changes the options of later or concurrent runs.",
 ['configurations','histories','schedules'],'every assignment of options to runner and run, sequences of runs, and interleavings of concurrent runs',
 'The tests run one scraper and do not look at what it is given.',
 ['runner.go','options.go','scraper.go'],[('options of the runner overridden by those of the run','runner.go Run')],[('opts','options of the runner','runner.go')],['Run'])
J='pkg/space/marshal/'
p('C17','Marshaling to JSON and back preserves every field',
 "For any entity, resource, object (with or without a resource) and link whose strings are valid UTF-8, marshaling it to JSON and unmarshaling the result into the same kind yields an equal value: same UID, type, name, namespace, group, version, kind, namespaced flag, end points, attributes and resource. The JSON uses the documented field names, and equal values give equal JSON. Converting a value does not change it, and the result shares no mutable attributes with it, nor do later calls change the JSON that was returned.",
 ['inputs'],'every assignment of a small domain of strings (empty, quotes, unicode, control characters) and attribute sets to the fields of each kind',
 'The tests marshal one fixed value per kind and only check that no error is returned.',
 [J+'marshal.go',J+'types.go',J+'json/json.go'],[('conversion to and from plain structs','pkg/space/marshal/marshal.go'),('type switch from the most specific kind','pkg/space/marshal/json/json.go')],[],['Marshal','Unmarshal','EntityToSpace','EntityFromSpace'])
p('C18','Unmarshaling malformed or foreign input is safe and all or nothing',
 "Unmarshaling any byte string into any supported kind never panics: it either returns an error and leaves the destination as it was, or fills it with exactly what standard JSON decoding of the documented fields yields, independent of what the destination held before. It fails exactly when the input is not valid JSON of the right types, and marshaling or unmarshaling any unsupported type returns ErrUnsuportedType.",
 ['inputs','fault_sequences'],'every truncation and every single-byte change of valid documents of each kind, every field replaced by every JSON type, and the cross product of kinds',
 'The tests read one valid file per kind.',
 [J+'json/json.go',J+'marshal.go'],[('decoding into a local struct first','pkg/space/marshal/json/json.go Unmarshal')],[],['Unmarshal','Marshal'])
p('C19','Attributes are a faithful map and copies of them are independent',
 "Attributes return for every key the value last set (or else the initial one, or else the empty string), and list exactly the keys ever set, once each; their DOT form has exactly these pairs. Creating attributes from a map or copying them from any attributes gives equal content that later changes on either side do not affect, copying from nil gives empty attributes, and converting them to a map gives exactly their content, in a map of its own. If the attributes being copied or converted report an error at any point, that error is returned.",
 ['histories','inputs','fault_sequences'],'every sequence of sets over a few keys and values interleaved with copies, and an error injected at every call of the source',
 'The tests set one key and copy one map; independence, nil and errors of the source are not covered.',
 ['pkg/attrs/attrs.go','pkg/attrs/memory/memory.go','pkg/attrs/memory/dot.go'],[('element-wise copy','pkg/attrs/memory/memory.go NewCopyFrom/NewFromMap'),('conversion','pkg/attrs/attrs.go ToMap')],[],['Keys','Get','Set','Attributes','ToMap'])
E_='pkg/space/entity/'
p('C20','Constructed values report exactly what they were built from',
 "Entities, resources, objects, links and graph nodes and edges report exactly the fields and options they were created with, for any subset of options in any order where the last one wins and a nil or empty one counts as none. Without the option, the UID is a fresh one no other value has, attributes are empty and not shared with any other value (a graph node has those of its entity), an edge has the weight given, and the DOT ID is the UID of an entity, edge or graph, group/version/kind of a resource, group/version/kind/namespace/name of an object with a resource or else its UID, and that of the entity for a graph node; an edge created with a DOT ID has it as its UID too. Setting a DOT ID changes that and nothing else, and the methods of an edge reversed, its ends and its weight agree. A message type has the name of its kind (Entity, Object, Resource or Link), and any other is Unknown.",
 ['inputs','configurations'],'every subset and order of options for every constructor over a small domain of field values',
 'The tests construct one value per kind with one or two options.',
 [E_+'entity.go',E_+'resource.go',E_+'object.go','pkg/space/link/link.go',G+'node.go',G+'edge.go','pkg/uuid/memory/default.go'],[('defaults applied after options','pkg/space/entity/*.go New*')],[],['UID','Type','Attrs','DOTID','SetDOTID','Weight','FromNode','ToNode','ReversedEdge'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
