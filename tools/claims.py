BASE=" Trusted: the verifier gocv itself, go/ssa, the SMT solvers, and the library models listed in the evidence file."
CLAIMED={
"B01":"Every method of the dictionary and list types is proved against its contract for all inputs (strings of arbitrary bytes and any length, the full integer range, any sequence of writes)."+BASE,
"U08":"Every Marshall/Unmarshall of the UDP protocol is proved to encode/decode exactly the BEP 15 fields, all lengths and contents; the inverse laws are theorems over these contracts."+BASE,
}
CLAIMED.update({
"U01":"Connection table operations and the datagram dispatcher are proved against contracts that name the table before and after, for every datagram, sender and table."+BASE,
"U02":"Proved for every table and every expiry."+BASE,
"U03":"The binary form is proved to round-trip for every table (layout theorem plus the decoder against any written table or prefix of one) and to reject every truncation; the on-disk form relies on encoding/gob decoding what it encoded."+BASE,
"U04":"Byte-exact layout of every reply is proved as a postcondition of each handler and of the dispatcher."+BASE,
"U05":"Absence of panics and at most one reply are proved for every datagram of at least 16 bytes and for the reading workers' loop."+BASE,
"U06":"Proved for every announce, against the abstract peer database whose laws S01-S03 establish."+BASE,
"U07":"Proved for every scrape; entry positions by a theorem over the layout."+BASE,
})
CLAIMED.update({
"S01":"Save, savePeer, Drop and delete are proved against contracts that name the whole database before and after, for every database, peer and address."+BASE,
"S02":"The counts equal the membership as a data invariant of every operation (save, drop, expiry, backup load), for swarms of any size."+BASE,
"S03":"Both list builders are proved for every swarm and limit, including the byte layout, distinctness and completeness."+BASE,
"S04":"The expiry run is proved by loop invariants over both nested map iterations, for every database, clock and expiry."+BASE,
"S05":"Default build; every operation's effect on the published totals is proved. The address counts are machine integers that wrap."+BASE,
"S06":"encodeBinary is proved to emit every swarm and peer exactly once in the record layout; decodeBinary is proved consistent for every input; that it rebuilds the same database is checked by a bounded round-trip run (labelled bounded in the evidence, not counted as proved)."+BASE,
"S07":"decodeBinary is proved free of panics, of unbounded allocation and of inconsistent results for every byte string."+BASE,
"S09":"WriteFileAtomic is proved against a file-system model in which every content a path ever shows is recorded; its callers are proved to replace the configured path by the encoded data only."+BASE,
"S10":"Every access in the functions under contract is checked against the set of released objects; pools are checked to hand out only reset objects."+BASE,
})
CLAIMED.update({
"C01":"The process-id file and Stop are proved against a model of files, signals, process existence and elapsed time: exactly one signal to the recorded process, at most 11 s of waiting, success exactly when the process was seen to be gone."+BASE,
"H01":"parse and unescapeFast are proved free of panics for every byte sequence, and everything they return is proved to lie in (or be decoded from) the bytes of that request."+BASE,
"H02":"Path, method and the percent-decoding of each parameter are proved for all inputs; that the query is split at each '&' is a bounded check on generated requests (labelled bounded, not counted as proved)."+BASE,
"H03":"The announce handler is proved for all parameter values, against the abstract peer database whose laws S01-S03 establish; the extraction of the parameters from the parsed request (the worker's loop) is a bounded check on generated requests (labelled bounded)."+BASE,
"H04":"The scrape handler is proved for all parameter lists; the worker's selection of the info_hash parameters is a bounded check on generated requests (labelled bounded)."+BASE,
"H06":"parseForwarded (heroku build variant) is proved for every request: no panic, and the result is the trimmed right-most item within the request; the worker's use of it is a bounded check on generated requests (labelled bounded)."+BASE,
})
THEOREMS={}
NA={
"S08":"needs interference reasoning over nested locks (ownership of shared maps by their mutexes); gocv models the lock state of one goroutine only, which does not decide the property",
"H05":"needs a trace monitor over the endless worker loop (accept, deadlines, answer, close); contracts for the functions it calls are proved (H01-H04) but the loop's own contract was not finished",
"H07":"needs models of embed.FS and of the directory walk; not within reach of the contracts built",
"C02":"needs contracts over signal delivery, goroutine launches and net/http's server start-up in Run; not finished (the loaders' need for ready pools is proved under S07)",
}
