"""What the checks are about: units, ownership of untagged clauses, levels."""
NOT_APPLICABLE = {
    "C27": "Concurrent schedules: the argument is that every command runs under the slot's parking_lot mutex, which the "
           "verifier can only take as an assumption here (contracts see the guarded section, sequentially); no contract in "
           "reach speaks about interleavings of tokio tasks or about the order in which messages of a slot are sent after "
           "its lock is released.",
    "C28": "Liveness under faults (eventual convergence, reconnecting, fork and socket failures): deductive contracts here "
           "are partial-correctness statements per function; C22 and C26 cover the safety part.",
}

# function path (as in the unit files) -> properties its untagged clauses state
OWN = [
    (r"^dict::cmd::deque::", ["C11"]),
    (r"^dict::data_type::deque::", ["C11"]),
    (r"^dict::cmd::kvp::incr::", ["C06", "C12"]),
    (r"^dict::cmd::kvp::", ["C12"]),
    (r"^dict::data_type::kvp::", ["C12"]),
    (r"^dict::cmd::set::", ["C13"]),
    (r"^dict::data_type::set::", ["C13"]),
    (r"^dict::cmd::sorted_set::(add|remove)::", ["C14"]),
    (r"^dict::data_type::sorted_set::", ["C14"]),
    (r"^dict::cmd::sorted_set::(rank|range_by_rank|remove_by_rank_range)::", ["C15"]),
    (r"^dict::cmd::sorted_set::shape_rank", ["C15"]),
    (r"^dict::cmd::sorted_set::", ["C16"]),
    (r"^dict::cmd::simple::(set|get)::", ["C05"]),
    (r"^dict::cmd::simple::expire::", ["C08", "C07"]),
    (r"^dict::cmd::simple::ttl::", ["C07"]),
    (r"^dict::cmd::simple::(del|exists)::", ["C19"]),
    (r"^dict::cmd::simple::incr::", ["C06"]),
    (r"^dict::data_type::i64@TryFrom", ["C06"]),
    (r"^dict::cmd::simple::(get_visit_times|get_last_visit_time)::", ["C20"]),
    (r"^dict::Value::", ["C20"]),
    (r"^dict::cmd::server::(dump|restore)::", ["C21"]),
    (r"^dict::MemDict", ["C%02d" % i for i in range(5, 23)]),
    (r"^db::(slot::Slot|Db)::kvp_incr$", ["C06", "C12"]),
    (r"^db::(slot::Slot|Db)::kvp_", ["C12"]),
    (r"^db::(slot::Slot|Db)::deque_", ["C11"]),
    (r"^db::(slot::Slot|Db)::set_(add|remove|exists|get_all)", ["C13"]),
    (r"^db::(slot::Slot|Db)::sorted_set_(add|remove)$", ["C14"]),
    (r"^db::(slot::Slot|Db)::sorted_set_(rank|range_by_rank|remove_by_rank_range)", ["C15"]),
    (r"^db::(slot::Slot|Db)::sorted_set_", ["C16"]),
    (r"^db::(slot::Slot|Db)::(set|get)$", ["C05"]),
    (r"^db::(slot::Slot|Db)::expire$", ["C08", "C07"]),
    (r"^db::(slot::Slot|Db)::ttl$", ["C07"]),
    (r"^db::(slot::Slot|Db)::(del|exists|flushall|flush)$", ["C19"]),
    (r"^db::(slot::Slot|Db)::incr$", ["C06"]),
    (r"^db::(slot::Slot|Db)::(get_visit_times|get_last_visit_time)$", ["C20"]),
    (r"^db::(slot::Slot|Db)::(dump|restore)$", ["C21"]),
    (r"^db::Db::get_slot", ["C04"]),
    (r"^db::(slot::Slot|Db)::replace_dict$", ["C26"]),
    (r"^db::slot::(Slot::call_|Slot::new|ShareStatus)", ["C%02d" % i for i in range(5, 23)]),
    (r"^db::slot::replica_update::", ["C22"]),
    (r"^db::expire::", ["C10"]),
    (r"^server::cmd::base::(set|get|setex|psetex)::", ["C05"]),
    (r"^server::cmd::base::(incr|incrby|decr|decrby)::", ["C06"]),
    (r"^server::cmd::base::(expire|expireat|pexpire|pexpireat)::", ["C07", "C08"]),
    (r"^server::cmd::base::(ttl|pttl)::", ["C07"]),
    (r"^server::cmd::base::(del|exists)::", ["C19"]),
    (r"^server::cmd::list::", ["C11"]),
    (r"^server::cmd::hash::hincrby::", ["C06", "C12"]),
    (r"^server::cmd::hash::", ["C12"]),
    (r"^server::cmd::set::", ["C13"]),
    (r"^server::cmd::sorted_set::(zadd|zrem)::", ["C14"]),
    (r"^server::cmd::sorted_set::(zrank|zrevrank|zrevrange|zremrangebyrank)::", ["C15"]),
    (r"^server::cmd::sorted_set::zrange::", ["C15", "C16"]),
    (r"^server::cmd::sorted_set::", ["C16"]),
    (r"^server::cmd::others::(dump|restore)::", ["C21"]),
    (r"^server::cmd::others::object::", ["C20"]),
    (r"^server::cmd::others::flushall::", ["C19"]),
    (r"^server::cmd::others::", ["C03"]),
    (r"^server::cmd::(Read|Write)::apply$", ["C%02d" % i for i in range(5, 22)]),
    (r"^server::frame_parse::data_type_to_frame$", ["C05", "C11", "C12"]),
    (r"^common::options::range_cmd_order::", ["C15", "C16"]),
    (r"^common::parse_i64$", ["C02", "C06", "C25"]),
    (r"^common::(deadline_ms|expire_deadline|set_deadline)$", ["C07"]),
    (r"^common::BoundExt|^common::Bound@", ["C16"]),
    (r"^common::float::", ["C14", "C15", "C16"]),
    (r"^common::connection::parse::(Parse::|ParseError|frame::(str@|Float@|to_lowercase))", ["C25"]),
    (r"^common::options::\w+::\w+::parse_frames", ["C25"]),
    (r"^server::derived::", ["C25"]),
    (r"^server::frame_parse::next_data_type", ["C25"]),
    (r"^server::Handler::run", ["C03", "C25"]),
    (r"^server::(limit::|Listener::|run$)", ["C24"]),
    (r"^server::cmd::(Command|base::unknown::Unknown)::", ["C25"]),
    (r"^common::connection::parse::frame::parse", ["C02"]),
    (r"^common::connection::parse::frame::(write_|is_line_break|Frame::|Vec@)", ["C01"]),
    (r"^pd::status::", ["C23"]),
    (r"^common::connection::Connection::(new|read_frame)", ["C02"]),
    (r"^common::connection::Connection::write_frame", ["C01"]),
]
# properties that speak about every command
EVERYWHERE = ["C03", "C09", "C10", "C17", "C18", "C20", "C22"]

UNITS = {"C%02d" % i: ["dict", "db"] for i in range(5, 23)}
for _p in ("C05", "C06", "C07", "C08", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C20", "C21"):
    UNITS[_p] = ["dict", "db", "server"]
UNITS["C03"] = ["dict", "db", "server", "parse", "conn"]
UNITS["C01"] = ["wire"]
UNITS["C02"] = ["wire"]
UNITS["C04"] = ["db"]
UNITS["C26"] = ["db"]
UNITS["C23"] = ["pd"]
UNITS["C25"] = ["parse", "conn"]
UNITS["C24"] = ["limit"]

TRUST = [
    "models of std and of the dependencies (HashMap, HashSet, VecDeque, BTreeSet, iterators, Vec growth, String, Arc, BytesMut, nom's "
    "combinators written out, atoi, integer Display): the assumed contracts of module `stub`; the f64 order model is checked against f64 by kani/floats",
    "derived Clone/PartialEq/Default and serde round trips mean equality of the fields",
]
# what every sequential contract of the key space rests on
SEQ = [
    "a command runs alone on its slot: the slot lock is read as what it guards (see C27), spawned work as done at once",
    "the clock is constant during one command and below 2^32 * 10 s",
    "channel receivers are alive; write numbers stay below 2^64",
    "a vector has at most isize::MAX elements",
]
ASSUME = []

DEDUCTIVE = "contract-based deductive verification of the extracted code (Verus/Z3); executable contracts replay on the real code"


def proved(what, rest="", assume=(), note=""):
    return dict(
        technique=DEDUCTIVE, level="proof",
        note=what + (" Not proved, bounded replay only: " + rest if rest else "") + " Trusted: Verus, Z3, the extractor's rewritings, the models of std types.",
        rest=rest, assume=list(assume))


def partly(what, rest, assume=()):
    return dict(
        technique=DEDUCTIVE, level="other",
        note=what + " Bounded (executable contracts against the real code): " + rest,
        rest=rest, assume=list(assume))


CMD = ("Contracts on every layer the command passes: server::cmd::X::apply, Db, Slot, Dict and the data types, for all states and arguments; "
       "each layer is checked against the contracts of the next.")
ARGS = ""
CHECKS = {
    "C01": proved("Frame's writer is proved equal to a spec encoding, and the reader to a spec decoding; round trip, exact consumption and prefix-freeness are lemmas over them.",
                  assume=["decimal text of integers: Display and atoi agree with the spec functions", "non-empty errors without interior type bytes as stated in the property"]),
    "C02": proved("The frame parser is proved equal to a spec decoder over the bytes received so far (complete / incomplete / malformed, exact consumption, depth limit); read_frame is proved to give the decoder's answer on the "
                  "concatenation of what was read, whatever the chunks.",
                  assume=["nom's leaf parsers, BytesMut and TcpStream::read as modelled in wire.unit"]),
    "C03": proved("Handler::run is proved to serve a connection as a sequence of turns: the next request on the stream is taken, becomes the command from_frame says, has that command's proved effect on the state, "
                  "and exactly one well-formed reply made from its result is written before the next turn; it ends only at the end of the stream, at a refused request, a malformed or broken stream, or a snapshot request, "
                  "with nothing else executed. That a client reads exactly one value per request is a lemma over the wire format. No panic, overflow or violated precondition in any function on the way.",
                  "the snapshot request (fork) itself, and that a panic in one task leaves the others alone",
                  SEQ + ["other connections' commands do not run between two turns (the state a turn starts from is the one the previous turn left)",
                         "errors are shown as non-empty text", "TcpStream::write_all writes all bytes in order or fails", "tasks are isolated (tokio)"]),
    "C04": proved("Key::new/slot selection and Db::get_slot for every key and every command.", assume=["CRC16 (crate) is an uninterpreted function; the replay compares it with a table-driven XMODEM"]),
    "C05": proved(CMD, ARGS, SEQ),
    "C06": proved(CMD, ARGS, SEQ),
    "C07": proved(CMD, ARGS, SEQ),
    "C08": proved(CMD, ARGS, SEQ),
    "C09": proved("Every command's contract is stated over look(), which shows an expired key as a missing one; proved for all commands of dict and db.", "replies as bytes", SEQ),
    "C10": proved("Slot's schedule invariant (every deadline is scheduled), the removal step and the call_* functions that maintain it.", "timing of the background task", SEQ),
    "C11": proved(CMD, ARGS, SEQ), "C12": proved(CMD, ARGS, SEQ), "C13": proved(CMD, ARGS, SEQ),
    "C14": proved(CMD, ARGS, SEQ + ["addition of scores is uninterpreted (f64 +)"]),
    "C15": proved(CMD, ARGS, SEQ), "C16": proved(CMD, ARGS, SEQ),
    "C17": proved("The error clauses of every command's contract: state unchanged, other keys untouched.", "replies as bytes", SEQ),
    "C18": proved("The key space invariant (no empty collection, no other key changed) is a postcondition of every command.", "replies as bytes", SEQ),
    "C19": proved(CMD, ARGS, SEQ), "C20": proved(CMD, ARGS, SEQ),
    "C21": proved(CMD, ARGS, SEQ + ["serialized values decode to an equal value (bincode), other payloads to some value or an error"]),
    "C22": partly("Numbering and publishing of every write (Slot::call_*), and the replica's apply/ignore/gap decision.",
                  "that replaying published commands reproduces the state (determinism of commands), and serialization of messages", SEQ),
    "C23": proved("Invariant (one leader, announced, ids unique and increasing) and exact effect of create_group, server_init, heartbeat and of every round of the liveness check.",
                  "request decoding in the placement driver's connection loop", ["fewer than 2^64 groups and servers per group", "operations hold the status lock from their first read to their last write"]),
    "C24": proved("Places are counted: Limit::new makes as many as configured, Limit::acquire takes one for good, Limit::drop gives one back, and Listener::run holds none between two connections and makes every "
                  "Handler with exactly one; that then never more than the limit are served, and all places come back, is a lemma over these steps.",
                  "that the runtime drops a handler when its task ends, in whatever way",
                  ["a value is dropped exactly once (Rust)", "tokio's semaphore as modelled in limit.unit: acquire waits for a free place, forget keeps it, add_permits(n) adds n"]),
    "C25": proved("Command::from_frame, the argument parser of every command (as the repository's derive macro writes it), every option parser and every token reader are proved equal to a "
                  "specification of the request grammar: a command results exactly if the arguments fit and none is left, each with the value it was given, options in any order and letter case. "
                  "Handler::run is proved to end the connection on a refused request with the state unchanged and nothing sent.", "",
                  ["to_lowercase is an uninterpreted function of the text; UTF-8 decoding inverts encoding", "an integer score is read as the f64 the cast gives, which is not NaN"]),
    "C26": partly("Slot::replace_dict replaces content, write number and schedule.", "the transfer itself and its format", SEQ),
}
