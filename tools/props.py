"""Per-property settings of the checks."""

VERUS = "contract-based deductive verification (Verus) of the functions of /repo/src, extracted on every run"
EXPL = "bounded stand-in: differential exploration of the real code (no contract within reach yet)"
COMMON = ("Trusted: the extractor's rewrites (DESIGN.md, listed per run in the evidence), the contracts assumed of external "
          "code (listed in coverage.trusted_base) and Verus/Z3. A bounded replay of the real code supplies failing inputs "
          "and stands in for code out of reach; it is never counted as proved.")


class P:
    def __init__(self, level, technique, note, budget=(40, 500), assumptions=()):
        self.level, self.technique, self.note = level, technique, note
        self.budget, self.assumptions = budget, list(assumptions)


def proof(note, **k):
    return P("proof", VERUS, note + " " + COMMON, **k)


def expl(note, **k):
    return P("exploration", EXPL, note, **k)


PROPS = {
    "C01": proof("Every byte a read delivers is proved to be the byte of the archive defined in verus/spec_zip.rs from the "
                 "entries (bytes of the packed_struct derive: proved by Kani on every run), for all entry lists, states and buffers."),
    "C02": proof("Builder::size, Reader::size and the length of the archive in the specification are proved equal, and the builder "
                 "never overflows, for every sequence of builder operations and every read."),
    "C03": proof("Every seek operation of Reader is proved to leave a state from which reads deliver the archive from the target."),
    "C04": proof("read and its helpers are proved to append exactly archive[pos..pos+n] and advance by n, for every buffer and every "
                 "answer of the sources; non-empty reads end only at the end of the archive, when pending or in error."),
    "C05": proof("Stored CRCs are proved to be the CRC-32 (an uninterpreted function with the streaming laws of crc32fast assumed) of "
                 "the entry's content, through every history of reads and seeks."),
    "C06": proof("Sequential reads are proved to pass the end of an entry only if the size and a supplied CRC match; the errors "
                 "returned carry name, expected and actual value."),
    "C07": proof("Errors are proved to leave position and invariant untouched, and reads and seeks to be possible again."),
    "C08": proof("add_entry is proved to succeed exactly for representable entries and to change nothing otherwise."),
    "C09": proof("The datetime setters are proved to store exactly the fields given, or to reject or default."),
    "C10": proof("External attributes are proved to be the mode of the entry type and permissions, by bit-vector reasoning."),
    "C11": proof("clone and take_pinned are proved to keep archive, position and CRCs, and to leave a valid reader behind."),
    "C12": proof("The in-memory source (AsRefReader, blanket EntryData) is proved to implement the source contract the reader relies on."),
    "C13": proof("The walk is proved, for every directory tree, to add every object below the root exactly once under its name, with its kind, size, "
                 "permissions and time, and to fail only for the reasons given; the sources of files and links are proved to deliver their content. "
                 "The file system is a relation assumed not to change meanwhile; termination on an infinite tree is not claimed."),
    "C14": proof("Response, body and hand-back are proved against the contracts of the byte stream and of Reader; the parsing of the Range header "
                 "is that of http-range-header (assumed contract: ranges of a non-empty file lie inside of it)."),
    "C15": proof("The stream adapter is proved against the contract of Reader to yield exactly what the reader delivers, in non-empty blocks, "
                 "to end only at the end and to stay there, and to hold nothing back; for all schedules and clone points."),
    "C16": proof("The ghost log of openings is proved to change only where the reader needs the data or CRC of an entry."),
}
