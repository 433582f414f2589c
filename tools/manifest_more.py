LV = {
 'C06': 'Constructor and destructor contracts discharged for every requested capacity (1 to 2^64-1), with allocation and system-call failures, for seven heap and in-place instantiations; element construction and destruction by loop invariants over all slots. Native driver with tracked storage and injected failures as bounded cross-check.',
 'C07': 'Every path through create/cleanup/move/destroy with every system call failing or succeeding is enumerated symbolically (ghost set of descriptors, mappings, files, names) and the frame/ownership postconditions are discharged for all sizes up to 2^62. System calls are assumed contracts. Native fault-injection driver as bounded cross-check.',
 'C08': 'Contracts of construction, assignment, concatenation and accessors discharged for all contents and lengths, for the limits instantiated in the harness.',
 'C09': 'Classification and description contracts discharged for every error value; result alternatives for the instantiated value types.',
 'C10': 'Contracts of the power-of-two helpers discharged for every 64-bit argument.',
 'C11': 'The partition contract of initialize is discharged for every pair of 1 to 248 blocks and 1 to 8 workers (the limits of the tables: a complete enumeration, each pair executed symbolically on the real code); cycling, ownership and the worker loop by loop invariants for any number of steps; run starts exactly the required tasks for 3- and 10-block graphs. Native driver over the public interface as bounded cross-check.',
 'C12': 'Loop invariants over ghost histories (calls, outcomes, callback, stop) of both schedulers are discharged for all outcome sequences, stop times and configurations, for every block of a 3-block graph, with and without callback; the pool loop uses the proved contract of one tick. Native driver as bounded cross-check.',
 'C13': 'Back-off contracts in IEEE-754 arithmetic on one tick and loop invariants over ghost histories of starved calls are discharged for all configurations in the stated range and all outcome sequences. Native driver as bounded cross-check.',
 'C14': 'The step contract (conservation, order, capacity, honest shortages, no effect without progress) is discharged for every block state, buffer size, occupancy and interleaving of the peers, for 30 instantiations of 11 blocks, over the channel contracts proved under C01-C05; sample loops by loop invariants. Native driver over the public interface as bounded cross-check.',
 'C15': 'Every output sample at an arbitrary position equals the documented function of the input samples at that position, discharged for all values, positions and occupancies, for the element types int, float, complex and 2 or 3 summands. Native driver as bounded cross-check.',
 'C16': 'Contracts of the slot pool (partition, capacity, disjoint slots, return of every slot exactly once) and of the UDP source and sink steps (each datagram copied unaltered, in order, recycled exactly once, also when send or receive fails) are discharged for all pool geometries, datagram sizes, occupancies and system-call outcomes. Socket calls are assumed contracts. Native loopback driver, also under ThreadSanitizer, as bounded cross-check.',
 'C17': 'Contracts of the checksum (remainder by the generator polynomial, by a loop invariant over a ghost prefix sum), of one- and two-bit repair, of the table of recently seen addresses and of every field of mode_s_decode are discharged for all messages of each of the 32 types, all settings and table contents. Floats uninterpreted. Native driver against an independent decoder as bounded cross-check.',
 'C18': 'Bounds, restoration of the samples, validity of what is reported and progress (a variant) are discharged for both detectors with every sample read left open, for every buffer length below 2^31, over the contract of mode_s_decode. Native driver with exact-size buffers of all lengths as bounded cross-check.',
}
NA = {}
