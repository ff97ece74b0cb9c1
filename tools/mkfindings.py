import json,subprocess
# property, commit subject prefix, what
F=[("C04","fix: count dropped async","two goroutines dropping messages at the same time raced on the dropped counter"),
("C16","fix: keep the outer goroutine local","a nested wrapped function removed the storage of the enclosing one"),
("C16","fix: give every run","two runs of one wrapped function shared one storage"),
("C17","fix: export the statistics every","the export timer fired once only: later counts were never exported"),
("C17","fix: name the event in exported","exported points did not name their event"),
("C17","fix: release the statistics lock","an event that panics while being counted left the shard locked: the next event in the shard deadlocked"),
("C17","fix: do not start an exporter","an event with an unknown aggregation started an exporter goroutine for an incomplete window"),
("C18","fix: do not set the default backup","data race between Write/Rotate and the clean-up goroutine on BackupTimeFormat"),
("C19","fix: read the timestamp of a backup","with local time, the age of backups was wrong by the zone offset, so backups within MaxAge were removed or kept too long"),
("C20","fix: do not truncate the log file","when stat of the log file failed with something else than 'does not exist', the log was truncated"),
("C18","fix: keep earlier backups","two rotations in the same millisecond (or coarser custom format unit): the second overwrote the first backup"),
("C19","fix: do not crash on a file whose","a file such as foo-.log (prefix and extension overlap) crashed the clean-up goroutine, and the process with it"),
("C13","fix: do not lose bytes a reader","bytes a reader returned together with io.EOF or an error were lost"),
("C13","fix: do not hang or crash when consuming","ConsumeN beyond the end looped forever, Consume1 and Peek at the end crashed"),
("C13","fix: read and skip all the runes","runes split over two chunks or at the end were lost or the scan stopped early"),
("C14","fix: notice every overflow","some overflowing integers were silently read as another number"),
("C14","fix: do not crash when reading an integer at","reading an integer at the end of the input crashed"),
("C15","fix: report an error found at the end","a syntax error at the end of the input was masked by io.EOF and the input accepted"),
("C15","fix: report a byte that is missing","a missing closing token at the end of the input was accepted"),
("C11","fix: write all the digits of 32 bit numbers","32 bit numbers from 1000000000 on lost their leading digits or were written with wrong ones"),
("C11","fix: write all the digits of 64 bit numbers","64 bit numbers of 10 to 19 digits could lose digits"),
("C11","fix: do not lose a last character that needs","a string lost its last character if that needs escaping"),
("C11","fix: do not lose the bytes before a non-ASCII","a byte slice lost the plain bytes before a non-ASCII byte"),
("C11","fix: encode floats JSON has no number","NaN and the infinities were written as invalid JSON"),
("C12","fix: iterate over maps with go 1.18","encoding a map crashed the process (iterator smaller than the runtime's)"),
("C12","fix: encode nil errors and marshalers","a nil error or Marshaler crashed, an error message was not escaped"),
("C12","fix: encode nil as null","encoding nil crashed"),
("C12","fix: escape field names and the message","a field name or message with a quote gave invalid JSON"),
("C12","fix: encode map keys of all types","map keys that are no strings gave invalid JSON"),
("C12","fix: encode values of recursive types","building the encoder of a recursive type overflowed the stack"),
("C12","fix: encode the values of interfaces with the same config","extensions and configuration did not apply to values in interfaces"),
("C12","fix: leave out unexported fields whatever letter","unexported fields whose name starts with a non-ASCII letter were encoded"),
("C12","fix: nil has no type","the type of nil crashed the process"),
("C10","fix: do not crash on empty and malformed formats","empty and malformed formats crashed"),
("C10","fix: report a format that is not implemented","an unknown format function crashed"),
("C10","fix: do not crash on arguments that are not pairs","an odd number of arguments or a name that is no string crashed"),
("C10","fix: do not lose bytes next to escaped ones","bytes formatted as text lost the bytes next to escaped ones"),
("C10","fix: print the empty line to the given writer","Fprintln without arguments printed to standard output"),
("C10","fix: do not keep pointers to a stack","formatting from a stack that grows meanwhile left a bad pointer: the garbage collector ended the process"),
("C07","fix: do not keep pointers to the stack of","logging a new event from a goroutine with a large stack that then ended left a bad pointer: the garbage collector ended the process"),
("C07","fix: do not crash the caller when there can be no handler","a sink, format or aggregator that panics while making a handler crashed the caller"),
("C07","fix: do not write an event twice","an event that was written but could not be counted was written twice"),
("C07","fix: do not crash the caller when the text of an error","an error whose Error method panics crashed the caller"),
("C07","fix: do not crash the caller once an event","after an event could not be handled the next one of this name crashed"),
("C07","fix: do not crash the caller when the text of a panic","names and errors whose methods panic with a value that panics crashed the caller"),
("C06","fix: log a panic without 64k","LogPanic wrote to the spare capacity of the caller's properties and logged 64k of zeros"),
("C06","fix: suppress all the levels","debug and info events were not suppressed in a context"),
("C06","fix: write warnings, errors and failed","aggregated warnings and failed calls were left out when the minimum level was raised to warnings"),
("C06","fix: write calls from the call level","calls were written below the call level if a collector is set"),
("C09","fix: show the level in human","the level was missing from human readable records"),
("C09","fix: write valid json with the error","the json record of an event with an error was not valid"),
("C09","fix: log properties whatever","properties whose names are no identifiers broke the record"),
("C09","fix: handle events of one name","an event was formatted like an earlier one of the same name with other properties"),
("C10","fix: format by the arguments given","a format used before with arguments of other types or names read memory of the wrong type"),
("C10","fix: format a nil stringer like fmt","a nil Stringer crashed"),
("C21","fix: dereference pointers to unsafe.Pointer","Indirect of a pointer to an unsafe.Pointer returned the address of the variable"),
("C21","fix: set and get fields promoted","Get and Set of a field promoted from an embedded struct accessed another place of the outer struct"),
("C21","fix: grow slices in the safe configuration","Grow panicked with ConfigSafe"),
("C21","fix: TryGetIndex takes and returns pointers","TryGetIndex took other arguments with ConfigSafe than with ConfigUnsafe"),
("C21","fix: struct types have fields in the safe configuration","struct types of ConfigSafe were no StructType"),
("C22","fix: do not access memory beyond slices","GetIndex and SetIndex out of range, MakeSlice with a length above the capacity and Grow to a negative length accessed or exposed other memory"),
("C19","fix: lumberjack: compress the backups of a log file whose","backups of a log file with the extension .gz were taken for compressed ones and never compressed"),
("C20","fix: lumberjack: leave no empty compressed backup","a failing chown of a compressed backup left an empty one beside the backup"),
("C18","fix: lumberjack: accept writes with a huge MaxSize","every write failed when MaxSize in bytes was beyond 2^63"),
("C19","fix: lumberjack: keep backups with a huge MaxAge","all backups were removed with a MaxAge of more than 106751 days"),
("C18","fix: lumberjack: keep the permissions","the log file created by a rotation and compressed backups lost the permissions masked by the umask"),
("C01","fix: executor: do not log under","the waiting stop blocked forever when the logger it reports to starts, or waits for, handlers of the executor"),
("C17","fix: stats: a panic of the collector","a panic of the collector ended the exporter: with the default executor the process, otherwise all later exports of the event"),
("C03","fix: async writer: a panic of the sink","a panic of the sink ended the writer's goroutine: later messages were lost and Write blocked forever"),
("C23","fix: log each failure to close","CloseAll logged earlier errors again and Close wrote into the caller's property array"),
]
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
extra=json.load(open('/verif/tools/known_extra.json')) if __import__('os').path.exists('/verif/tools/known_extra.json') else []
out=[]
for p,s,w in F+[tuple(x) for x in extra if len(x)==3]:
    m=[l.split()[0] for l in log if l.split(' ',1)[1].startswith(s)]
    assert len(m)==1,(s,m)
    out.append({"property":p,"status":"fixed","commit":m[0],"key":"fixed "+m[0],"what":w,"line":f"fixed: property={p} {m[0]} {w}"})
json.dump(out,open('/verif/known_findings.json','w'),indent=1)
