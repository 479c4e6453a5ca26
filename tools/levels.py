TECH = 'deterministic simulation with fault injection (seeded schedules and faults, reference-model oracle)'
COMMON = 'Exploration: no violation on the seeds and schedules run; no claim beyond them. Trusts the simulator and its reference models, Go\'s runtime, and the standard library.'
NOTES = 'No hooks are committed in /repo: bin/build copies the working tree to a scratch directory and instruments the copy (scheduling points, and seams for clock, randomness, files, output, locks, goroutines).'
LEVELS = {
 'C01': 'Seeded interleavings of goroutines feeding hash instances, compared with an independent SM3.',
 'C02': 'Seeded runs of concurrent signers over degenerate, split and crafted random streams (including nonces the standard forbids), judged by an independent SM2.',
 'C03': 'Seeded runs of concurrent operations over random sources that fail at every byte or read (for good or for a while), split reads, stall, or differ in one bit; outputs, errors and recovered secrets are compared across the whole history of the run.',
 'C04': 'Seeded runs of a network that alters, splices and replays signatures; every verdict of the eight verification entry points is compared with an independent strict verifier.',
 'C05': 'Seeded runs over degenerate, split and crafted random streams (leading zeros, all-zero key stream), decrypted by the library and by an independent SM2, both ways.',
 'C06': 'Seeded runs of a network that damages, splices and forges ciphertexts; an independent strict decryption decides what must be refused.',
 'C07': 'Seeded runs of key generation from edge-case random streams, storage on a simulated disk with crash, power loss and damage, and reload.',
 'C08': 'Seeded runs of concurrent signers under clock jumps, skews, time zones, slow callbacks; output judged by a hand-written strict reader with independent SM2/SM3 and the simulated clock.',
 'C09': 'Seeded runs of a network that alters, splices and forges messages with sound and defective signers; each acceptance is justified signer by signer by an independent reader and the record of what was signed.',
 'C10': 'Seeded runs of issuers whose external signers fail in decided ways and recover; what signers were handed is compared with the signed part as read by an independent reader.',
 'C11': 'Seeded runs of concurrent savers and loaders on a simulated disk with injected failures of every operation, full disk, crash at any statement or disk operation, power loss with torn and lost writes; a per-file model judges every load.',
 'C12': 'Seeded runs of keystore makers (this library, an independent writer, stored files of the pinned version), a damaging disk and network, and openers through all entry points; judged by the record of what was stored, an independent strict reader and golang.org/x/crypto.',
 'C13': 'Seeded runs of authorities, a damaging and mis-routing network, and receivers; fields judged through three readers, acceptances by independent verification and the record of what was signed.',
 'C14': 'Seeded runs of request and revocation-list makers, a damaging network, and receivers; judged through three readers, independent verification and the record of what was signed.',
 'C15': 'Seeded interleavings, at statement granularity, of goroutines performing any mix of the exported operations on shared objects after arbitrary histories; every result is compared with that of the same operation alone in a process of its own.',
 'C16': 'Seeded runs of all exported operations under failing random sources, failing disks and damaged inputs; arguments (spare room and guard bytes included), output streams and the disk are compared around every call, and results and buffers are overwritten afterwards.',
 'C17': 'Seeded runs of a network and disk delivering damaged, nested, forged (under sound signatures and MACs) and arbitrary bytes to every parsing and verifying entry point, under a budget of statements; whatever is accepted is used and later delivered again.',
 'C19': 'Seeded runs of goroutines storing RSA, ECDSA and Ed25519 keys in every container on a simulated disk with crash, power loss and damage, and reloading them; judged by the standard library\'s encodings and by the key itself.',
}
PENDING = 'check under construction'
NA = {
 'C18': 'Timing and memory access patterns are not observable in a simulator whose clock counts statements; statistical or static constant-time analysis would be another technique family.',
}
for i in range(1, 18):
    NA.setdefault('C%02d' % i, PENDING)
