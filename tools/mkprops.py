#!/usr/bin/env python3
# Regenerates properties.jsonl (single source of truth for property text).
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
NOMYSQL="Every test that runs a client or a stage needs a live MySQL server and is skipped; "
prop("C01","Clients execute their statements strictly in order, iteration after iteration",
 "On every client the statements MySQL receives are exactly the statements of the client's assigned trx files, in assignment and file order, one at a time, repeated iteration after iteration. A statement is never skipped, duplicated, reordered, sent to a different session mid-iteration or executed after the client finished; a failed statement ends the iteration and the next one begins at the first statement. An idle statement pauses the client for the configured time at that position and sends nothing.",
 ["schedules","inputs","fault_sequences"],"all workloads (trx mixes, repeated trx, copies, prepared or not, idle), client counts, interleavings and query errors or connection losses at any statement",
 NOMYSQL+"none looks at the order of statements on a session when statements fail or clients interleave.",
 ["client/client.go","workload/workload.go","trx/trx.go"],[("critical loop over statements, continue to next iteration on error","client.Client.Run"),("copying statements per client","workload.Allocator.Clients"),("copies expansion","trx.File.statements")],["statements received by MySQL per session"])
prop("C02","Iteration limits are exact ceilings under concurrency",
 "A client with a per-client iteration limit starts exactly that many iterations, the clients of a client group with a shared limit start exactly that many in total, and all clients of an execution group with an execution-group limit start exactly that many in total, when nothing else stops them first. No combination of limits, schedule or query errors makes any of the limits exceeded; an iteration cut short by an error counts as one.",
 ["schedules","inputs","fault_sequences"],"all combinations of iter, iter-clients and iter-exec-group, group and client counts, interleavings of clients at the counters, recoverable errors",
 NOMYSQL+"the shared counters are only wrong under particular interleavings of several clients.",
 ["client/client.go","workload/workload.go"],[("atomic shared iteration counters","client.Client.Run"),("which clients share a counter","workload.Allocator.Clients")],["number of iterations started per client, group and execution group"])
prop("C03","Each MySQL error is handled by its documented policy",
 "After a deadlock, killed query, lock wait timeout or read-only error the client keeps its connection and starts a new iteration; if the error does not roll back automatically (lock wait timeout, read-only) and the trx file was begun, it first executes ROLLBACK so nothing of the failed iteration can be committed by a later one. Any other error, from the query or while its rows are read, makes the client drop the connection and reconnect before the next iteration; an error on a DDL statement outside the handled set stops the client and is reported. If ROLLBACK itself fails the client stops and reports it.",
 ["fault_sequences","schedules","inputs"],"every statement position, error code class, error point (before execution, after execution, in the middle of a result set, connection loss) and sequence of several errors",
 NOMYSQL+"no test injects an error into a query.",
 ["client/client.go","finch.go"],[("error classification and rollback","client.Client.Connect"),("error table","finch.MySQLErrorHandling")],["ROLLBACK, reconnects and connection identity seen by MySQL after each injected error"])
prop("C04","A reconnected client has a fresh private session set up like the first one",
 "Every session a client executes on belongs to that client alone, and after any reconnect it is a session on which the default database is selected again, every prepared statement works again and no transaction is still open. The abandoned session is really disconnected, so its open transaction is rolled back and it is never used again by any client. A client that lost its connection keeps trying to reconnect while MySQL is unreachable and resumes executing once it is reachable.",
 ["fault_sequences","schedules","inputs"],"all points at which a connection is lost or abandoned, any number of clients sharing a group, prepared and unprepared statements, outages of any length",
 NOMYSQL+"connection loss and recovery is never exercised.",
 ["client/client.go","dbconn/factory.go"],[("reconnect, USE, re-prepare","client.Client.Connect"),("pool per client group","workload.Allocator.Clients")],["session identity, default db, prepared statements and open transactions seen by MySQL"])
prop("D01","Data keys produce a new value exactly once per iteration of their scope",
 "A data key is unique within its configured scope and its generator is called once per scope iteration: all implicit uses inside one scope iteration see the same value, the next iteration gets a new one, and an explicit call always gets a new one. Clients sharing a client-group, execution-group or workload scoped key share one generator, yet each client and iteration gets its own value; stage and global scoped keys have one value everywhere for the stage or for the whole run. No value ever leaks into another client or is missing.",
 ["schedules","histories","inputs","fault_sequences"],"all scopes, statement/trx/iteration/client/group structures, stage sequences, interleavings of clients sharing a generator, and errors that restart an iteration at any point",
 "Unit tests call the scoped generator from one goroutine with hand-made counters; nothing runs the scopes through a client, across groups, after errors or concurrently.",
 ["data/scope.go","workload/workload.go","client/client.go","trx/trx.go","finch.go"],[("once-per-scope-iteration decision","data.ScopedGenerator.Values/Call"),("which uses share a generator","data.Scope.Copy, finch.RunLevel.GreaterThan"),("run counters","client.Client.Run")],["values in the statements MySQL receives"])
prop("D02","Shared sequence generators never duplicate or skip a value",
 "When several clients draw from one shared auto-increment or sequential-range key, the values handed out over all clients are exactly the sequence a single caller would get: increasing by the step without duplicates or gaps, and consecutive ranges that tile begin to end and then wrap. This holds for every interleaving of the clients and for errors that restart iterations.",
 ["schedules","inputs","fault_sequences"],"all start/step/begin/end/size parameters, client counts and interleavings inside the generators",
 "Unit tests call the generators sequentially from one goroutine.",
 ["data/integer.go","data/scope.go"],[("atomic counter","data.AutoInc.Values"),("locked range","data.IntRangeSeq.Values")],["values in the statements MySQL receives"])
prop("D03","Saved columns and insert ids feed exactly that client's later statements",
 "A value saved from a result set (its last row) or from an insert id is what the later statements of the same client and scope use, unchanged, until a newer row or insert replaces it. It never comes from another client or another column, and buffers reused by the driver never alter an already saved value.",
 ["schedules","inputs","fault_sequences"],"all column positions and types, row counts, client counts, interleavings and errors between saving and using",
 "Unit tests of the column generator scan one value; none runs it through a client or several clients.",
 ["data/column.go","client/client.go","workload/workload.go"],[("scan and copy of column values","data.Column.Scan/Values"),("output wiring","workload.Allocator.Clients"),("insert id","client.Client.Run")],["values in the statements MySQL receives against the rows and ids it returned"])
prop("D04","Generated values are within the generator's parameters and spread as documented",
 "Every value of a built-in generator is one its parameters allow, however many clients share the generator: int within [min, max]; int-gaps within [min, max] and at most p percent different values (at least one); int-range an ordered pair within [min, max] of exactly size numbers, or fewer only at max; int-range-seq an ordered pair of its tiling; str-fill-az exactly len letters a-z and A-Z; auto-inc start plus a positive number of steps; client-id the requested ids and counts of the calling client. Over many draws all values that are allowed occur: a uniform int is uniform and includes min and max, a normal int has its mean and standard deviation, all letters occur, gaps are even; and xid and long random strings never repeat, also when clients use one generator at the same time. Values reach MySQL in their documented format (strings quoted, also in multi-row inserts, and as arguments of prepared statements).",
 ["inputs","schedules"],"all parameters of all generators, scopes that share a generator, client counts and interleavings inside the generators, text, prepared and multi-row statements",
 "Unit tests try one set of parameters per generator from one goroutine, and most generators have no test of bounds, spread or sharing.",
 ["data/integer.go","data/string.go","data/id.go","data/scope.go"],[("integer generators","data.Int, data.IntGaps, data.IntRange, data.IntRangeSeq, data.AutoInc"),("random strings","data.StrFillAz.Values"),("ids","data.Xid, data.ClientId"),("generator parameters","data.int64From")],["values in the statements MySQL receives"])
prop("T01","MySQL gets exactly the text of the trx file",
 "Every statement that MySQL receives is the text of the trx file: the lines of the statement joined by one space, otherwise unchanged byte for byte (quotes, percent signs, question marks and dollar signs in strings, spaces inside lines, comments before or after a data key or a csv list, non-ASCII letters), with only these replaced: data keys by their values (or by ? and one argument per ? in prepared statements), a key never by that of a shorter key with the same beginning; a csv substitution by exactly that number of comma-separated rows with new values in each; the copy number by the number of the copy. With copies: n there are n numbered copies in order at that place, with copies: 1 only one. It does not matter how the file is laid out: modifiers in any order, statement on one or several lines, blank lines, CRLF, no newline at the end, comments, text after the EOF marker is ignored.",
 ["inputs","histories"],"statement texts made of fragments that look like something else (format verbs, placeholders, params, comments, csv, keys), layouts, modifiers, any mix of keys",
 "Unit tests parse a few small files and look at the parsed struct, not at what MySQL finally gets after formatting with generated values.",
 ["trx/trx.go","client/client.go","data/scope.go"],[("parser","trx.file.parse, trx.file.statements"),("substitution","trx.Load, data keys and csv"),("formatting","client.Client.Run")],["statements, prepared texts and arguments MySQL receives"])
prop("L01","No throughput limit is ever exceeded, at any level",
 "For every configured queries-per-second limit (stage, execution group, client group, client) the queries of the clients under it, over any time window of t seconds, number at most rate times t plus a small constant burst per client; the same holds for transactions-per-second limits and explicit BEGIN statements. All limits that apply to a client hold at once, whatever the schedule, stalls and errors.",
 ["schedules","inputs","fault_sequences"],"all combinations of the eight limits, client counts, query latencies, stalls and interleavings",
 "The rate limiter has no tests at all: they would depend on real time.",
 ["limit/rate.go","workload/workload.go","client/client.go"],[("token production","limit.rate.run"),("combination of limits","limit.And"),("limits per level","workload.Allocator.Clients"),("wait before query / BEGIN","client.Client.Run")],["arrival times of queries at MySQL"])
prop("L02","Throughput limits never block progress",
 "A client that is subject to throughput limits keeps executing: while the queries themselves are fast the limited group achieves at least a substantial part of the tightest configured rate over the run, in every schedule. No combination of limits starves a client forever or deadlocks a stage.",
 ["schedules","inputs"],"all combinations of limits and client counts that do not otherwise stop, all interleavings of the limiter goroutines",
 "The rate limiter has no tests; starvation needs a particular interleaving of limiter goroutines.",
 ["limit/rate.go","client/client.go","workload/workload.go"],[("combination of limits","limit.and.run"),("token drop","limit.rate.run")],["number of queries executed over simulated time"])
prop("L03","Row limits stop the load at the configured number of rows",
 "With a row limit on an insert, a single client stops after exactly the first insert that reaches the limit, counting the rows each insert really affected and any configured offset, and errors count nothing. With several clients sharing the limit no client starts an insert once the acknowledged rows reached the limit, so the overshoot is at most one insert per other client. Every client stops.",
 ["schedules","inputs","fault_sequences"],"all limits, offsets, rows per insert, client counts, interleavings between checking and counting, and failing inserts",
 "One unit test checks the combination of two limits sequentially; none runs clients against a limit.",
 ["limit/data.go","client/client.go","trx/trx.go"],[("row counting","limit.Rows.More/Affected"),("check before write","client.Client.Run")],["rows inserted in MySQL, statements after the limit"])
prop("L04","Size limits load data until the size is reached and then stop",
 "With a table-size or database-size limit clients keep inserting while the size MySQL reports for the table, or for all tables of the database together, is below the limit, and stop within a bounded number of inserts after it is reached. The size is re-measured from fresh table statistics during the load, and combining it with a row limit stops at whichever comes first.",
 ["schedules","inputs","histories"],"all sizes, growth rates, table counts, client counts and interleavings",
 "The size limiter has no tests (needs MySQL).",
 ["limit/data.go","client/client.go"],[("size query and ANALYZE","limit.Size.More"),("combination","limit.or")],["data size in MySQL when the clients stop"])
prop("W01","Execution groups run one after another, their client groups in parallel",
 "Execution groups execute in order and never overlap: no statement of a later group is executed before every client of the earlier group is finished (or was abandoned because the stage was stopped). Within an execution group all client groups run at the same time with exactly the configured number of clients, each client executes only the trx assigned to its group in that order (all trx if none are assigned), and the groups formed are the contiguous client groups with the same name.",
 ["schedules","inputs","configurations"],"all workload configurations and interleavings, clients of very different speed, client failures",
 "Only the grouping function is unit-tested; nothing runs groups.",
 ["stage/stage.go","workload/workload.go"],[("sequential groups and waiting for clients","stage.Stage.Run"),("grouping","workload.Allocator.Groups"),("assignment","workload.Allocator.Clients")],["statements received by MySQL per client over time"])
prop("W02","DDL trx run exactly once, alone and in order by default",
 "With no workload configured, every trx file containing DDL is executed exactly once by one client with nothing else running, and the files between two DDL files run together as one group, in trx order. Any client group that is assigned a DDL trx without an iteration limit executes it for one iteration only.",
 ["schedules","configurations"],"all sequences of DDL and non-DDL trx files with and without explicit groups, all schedules",
 "Unit tests check the grouping of a few sequences, not what is executed.",
 ["workload/workload.go","trx/trx.go","stage/stage.go"],[("auto-allocation","workload.Allocator.AutoAssign/Groups"),("DDL detection","trx.File.statements")],["statements received by MySQL over time"])
prop("R01","Runtime limits end the stage and the client groups on time",
 "A stage with a runtime and a client group with a runtime stop executing statements when it elapses, within a small bounded delay, even if statements are running, sleeping clients, rate limits, lock waits or an unreachable MySQL keep clients busy. The stage never runs longer, does not end early while clients still have work and time, and a shorter group limit does not stop other groups.",
 ["schedules","fault_sequences","inputs"],"all runtimes, workloads, query latencies, stalls and faults at the moment the limit elapses",
 NOMYSQL+"and real time limits are not tested.",
 ["stage/stage.go","client/client.go"],[("nested contexts","stage.Stage.Run"),("context checks","client.Client.Run/Connect")],["time of the last statement, time the stage returns"])
prop("R02","An interrupt stops the run quickly, cleanly and with a final report",
 "Whenever the user interrupts the run, all clients stop, no further execution group or stage is started, the statistics collected so far are reported and the program ends by itself within a few seconds. It ends within the 7.5 second fail-safe even if clients, MySQL or remote instances never respond.",
 ["crash_points","schedules","fault_sequences"],"an interrupt at any point of boot, waiting for instances, running, between groups and during the final report, with stuck queries or lost remotes",
 "No test sends a signal.",
 ["boot/boot.go","stage/stage.go","compute/server.go","stats/collector.go"],[("signal handling and fail-safe","boot.Up"),("stop of groups","stage.Stage.Run"),("stop of instances","compute.Server.run")],["time from interrupt to process end, statements after it, reports"])
prop("P01","The configuration takes effect however it is written",
 "A setting has the same effect wherever it is legal to write it: in _all.yaml or in the stage file (which overrides it), as plain value, human-readable number or size, parameter, parameter of parameters or environment variable, and with --param on the command line overriding both files; parameters are known by their whole names, in every stage. MySQL connection settings apply in the documented precedence (--dsn, else mysql.dsn, else single settings: stage file over _all.yaml over my.cnf over defaults) to every connection of the stage, remote or local, including TLS: exactly the configured certificates, key, server name and verification, none if disabled or not configured (in the configuration or in my.cnf), except the built-in CA for Amazon RDS. Paths are relative to the stage file. A stage or parameter that is disabled or overridden has no effect, and a configuration file that cannot be read is an error, never ignored.",
 ["inputs","fault_sequences"],"all workload, limit, statistics and MySQL settings, written in every layer and every form, with overridden values in lower layers; several stages and directories; file system errors while loading",
 "Unit tests load a few fixed files and compare structs; none combines layers and forms or follows a setting until it has an effect.",
 ["config/config.go","config/file.go","compute/server.go","dbconn/factory.go","boot/boot.go"],[("base file, stage files, command line parameters","config.Load"),("variables and human-readable numbers","config.Vars, config.Stage.Vars"),("base settings and precedence","config.Stage.With, config.MySQL.With, config.Stage.CommandLine"),("MySQL DSN","dbconn.SetConfig, dbconn.Make")],["statements and connections MySQL receives","statistics reports","error messages and exit status"])
prop("P02","Stages run in order, each once, and never after an error",
 "The enabled stages on the command line are run in that order, one after another: a stage begins only after the previous one has completely ended and every client of every stage does all its work. If any stage's configuration is not valid nothing is run at all; if a stage cannot be prepared (trx files, data keys, reporters, DSN, TLS files) neither it nor any later stage is run. A disabled stage is never run. With --test nothing is run. finch exits with an error exactly if something was not valid or could not be read, and after an interrupt no further stage begins.",
 ["inputs","histories","fault_sequences","schedules"],"all lists of stages, disabled and invalid ones at any position for any reason, interrupts and file system errors",
 NOMYSQL+"so no test runs a list of stages; validation is tested on a few fixed files.",
 ["compute/server.go","compute/instance.go","config/config.go","stage/stage.go","boot/boot.go","trx/trx.go"],[("loop over stages","compute.Server.Run"),("validation","config.Load, config.Stage.Validate, trx.Load"),("prepare","stage.Stage.Prepare")],["statements MySQL receives per stage","exit status"])
prop("S01","Every executed query and error is counted exactly once",
 "Over a run in which all clients stop, the sum over all reported intervals of the read, write, commit and total counts and of each error code equals the number of such queries MySQL executed and errors they returned, per trx and in total, no matter when intervals end relative to queries. The only queries that may be missing are those after the last interval boundary when the run ends less than half an interval after it, and interval numbers increase by one without repetition.",
 ["schedules","inputs","fault_sequences"],"all interleavings of recording clients with the collecting goroutine, frequencies, client and trx counts, errors, groups with statistics disabled",
 "Unit tests collect from one goroutine; the lock-free swap is only wrong under particular interleavings.",
 ["stats/collector.go","stats/stats.go","client/client.go"],[("lock-free swap","stats.Trx.Swap/Record/Error"),("collect","stats.Collector.Collect"),("recording","client.Client.Run")],["reported instance statistics against the statements MySQL executed"])
prop("S02","Reported response times and rates describe the queries of that interval",
 "The minimum and maximum of each event class in an interval are exactly the shortest and longest response time of the queries counted in it, percentiles lie within one histogram bucket of the true ones, and durations, running time, client counts and per-second rates match the elapsed time. Statistics of an interval never contain values from another interval, and neither waiting for rate limits nor checking data limits is part of response time.",
 ["schedules","inputs","histories"],"all response time distributions, frequencies, interval boundaries, percentiles and interleavings",
 "Unit tests check fixed values in one interval.",
 ["stats/stats.go","stats/collector.go","stats/csv.go","stats/stdout.go","client/client.go"],[("bucket and min/max recording","stats.Stats.Record/Combine"),("interval duration","stats.Collector.Collect"),("CSV line","stats.CSV.Report")],["reported statistics and CSV rows against latencies of the simulated MySQL"])
prop("S03","Instance statistics are combined per interval, never mixed or doubled",
 "Each report covers one interval and contains at most one entry per compute instance, with the counts that instance really collected in that interval; a complete report has every instance, and an incomplete one is only made when an instance's statistics did not arrive before the next interval's or before the final timeout. Late, lost, repeated or reordered statistics messages never put counts into a wrong interval, double them, or stop later intervals from being reported.",
 ["schedules","fault_sequences","histories"],"all delays, losses, retries and reorderings of statistics messages from any number of instances relative to each other and to the local collection",
 "Unit tests send a few in-order messages from one goroutine.",
 ["stats/collector.go","stats/remote.go","compute/api.go"],[("interval buffer","stats.Collector.Recv/Report/Collect"),("sender queue","stats.Server"),("endpoint","compute.API.stats")],["reports made on the server against what each instance collected"])
prop("S04","The final report is made once, before the reporters are stopped, in bounded time",
 "When a stage ends, the last statistics are reported once and each reporter is then stopped exactly once and never used again, whether or not the last tick coincides with the end. Waiting for remote instances is bounded by the timeout, after which what has arrived is reported.",
 ["schedules","fault_sequences"],"all alignments of the reporting tick with the end of the stage, missing remote statistics, interrupts",
 "A few unit tests stop the collector at fixed times.",
 ["stats/collector.go","stage/stage.go"],[("stop protocol","stats.Collector.Stop")],["calls of a custom reporter, CSV rows, time of stage end"])
prop("N01","All instances start a stage together and each runs it exactly once",
 "No instance executes a statement of a stage before the configured number of instances has booted it, at most that many instances take part, and every instance that takes part runs the stage's workload exactly once. Extra instances are never started; stages run one after another on all instances, so nothing of a stage is executed by an instance after the server ended it and its acknowledgement arrived, and messages of an earlier stage have no effect on a later one.",
 ["schedules","fault_sequences","configurations"],"all instance counts, start orders, network delays, losses and late deliveries, with and without a local instance, one or several stages",
 "The compute tests need MySQL and are skipped; they use a loss-free loopback network.",
 ["compute/server.go","compute/api.go","compute/client.go"],[("boot barrier","compute.Server.run"),("client state machine","compute.API"),("remote run","compute.Client.run")],["statements per instance and stage, HTTP exchanges"])
prop("N02","A failed or dead instance never counts as booted and never blocks its place",
 "An instance whose boot fails is reported by the server and not counted as booted, no matter whether its messages had to be repeated. Its place becomes free so that another or restarted instance can join (the place of an instance that died silently at once if it restarts under the same name, otherwise after a minute), and the stage starts once the required number has really booted.",
 ["fault_sequences","crash_points","schedules"],"boot failures (bad connection, bad trx, unwritable files) and crashes of instances at any point of boot combined with lost requests and responses",
 "No test makes a remote fail or crash.",
 ["compute/api.go","compute/client.go","proto/proto.go","compute/server.go"],[("boot acknowledgement","compute.API.boot"),("retry of the failure message","proto.Client.request")],["when the server starts the stage, its log, statements per instance"])
prop("N03","Remote instances run exactly the server's stage configuration and trx files",
 "Whatever its size and whatever the network does, the stage configuration and every trx file a remote instance runs are byte for byte those of the server, including files of the same base name in different directories; if they cannot be obtained the instance fails instead of running something else. (An instance that already has a file of its own under the configured path uses that one.) Files fetched are stored in a private temporary directory that is removed when the instance ends.",
 ["fault_sequences","inputs","schedules"],"all file sizes, numbers and names, truncated, delayed, lost and repeated responses, disk-full and write errors",
 "The compute test fetches one small file over a perfect loopback network.",
 ["compute/client.go","compute/api.go","proto/proto.go"],[("fetching files","compute.Client.getTrxFiles"),("serving files","compute.API.file"),("reading the response body","proto.Client.request")],["statements the remote executes, its file system"])
prop("N04","Temporary network faults do not stop a distributed run",
 "If requests or responses are lost or delayed only temporarily and shorter than the documented retry limits, every instance still boots, runs and completes the stage and the server ends normally with their statistics. Repeating a request that the server had already processed has the same effect as sending it once.",
 ["fault_sequences","schedules"],"every single lost, delayed or repeated request or response at every step of the protocol, and short partitions",
 "The compute tests run over a perfect loopback network (and are skipped).",
 ["proto/proto.go","compute/api.go","compute/client.go","stats/remote.go"],[("retries","proto.Client.request"),("state machine of an instance","compute.API")],["completion of server and instances within bounded simulated time"])
prop("N05","The server always ends, even if remote instances are lost",
 "After an interrupt, or once the stage was stopped, the server tells the instances that still respond to stop, waits only a bounded time for the others and ends by itself within a few seconds without spinning. A lost or slow instance never prevents it.",
 ["fault_sequences","crash_points","schedules"],"instances crashed, partitioned or stalled at any point before or after the interrupt",
 "No test loses an instance.",
 ["compute/server.go","compute/api.go"],[("stopping a stage","compute.API.Stage"),("waiting for instances","compute.Server.run")],["time from interrupt to server exit, steps executed while waiting"])
prop("N06","A remote instance stops when its server stops or disappears",
 "A running remote instance stops executing statements within a bounded time after the server stops the stage or can no longer be reached, and ends by itself. While the server is reachable and the stage is running, temporary loss shorter than the retry limit never makes it stop.",
 ["fault_sequences","crash_points","schedules"],"server crash, interrupt, partition or stall at any moment of the run",
 "No test stops a server while a client runs.",
 ["compute/client.go","compute/api.go","proto/proto.go"],[("ping loop","compute.Client.run"),("ping endpoint","compute.API.ping")],["statements of the instance after the server stopped, time until it ends"])
prop("N07","Test mode boots everything, executes nothing and ends everywhere",
 "With the test option every stage is booted on all required instances, boot problems are reported, no workload statement is ever executed, and the server as well as every remote instance ends by itself. A stage that cannot boot makes the program fail.",
 ["schedules","configurations","fault_sequences"],"all numbers of stages and instances, join orders, delays and boot failures",
 "Test mode needs MySQL to boot and is not tested with instances.",
 ["compute/server.go","compute/api.go","compute/client.go"],[("test return","compute.Server.run"),("reset of waiting clients","compute.API.Stage/run")],["statements received by MySQL, exit of every instance"])
with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
