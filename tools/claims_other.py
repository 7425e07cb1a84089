"""claims outside the tensor algebra: property -> (technique, level_note)"""
CLAIMS = {
    "C16": ("TLA+ specification of lazy graphs: exhaustive TLC check that the slot/release algorithm refines it, all short histories generated "
            "by TLC replayed on the real library, and trace validation of random longer histories",
            "Exhaustive for graphs of 3 nodes and the history length in the evidence, sampled beyond. Trusts TLC and the driver's log of which "
            "functions ran. Node functions are pure; snapshots are loaded into the graph they were taken from."),
    "C15": ("TLA+ specification of interned names: exhaustive TLC check of the table algorithm with two processes, and trace validation of random "
            "histories of the real table",
            "Sampled histories (up to some thousand names, two processes). Names made by number are not covered."),
    "C18": ("TLA+ specification of scratch memory: exhaustive TLC check of the scope algorithm with every alignment gap, and trace validation of "
            "random histories of the real scopes with a recording stand-in for ordinary memory",
            "Exhaustive for the small machine, sampled histories for the real code. Alignments above max_align_t are outside the property."),
    "C17": ("TLA+ specification of the collective operations: exhaustive TLC check of the message algorithm over all interleavings, process counts "
            "and roots in the bounds, and trace validation of recorded runs under mpirun",
            "The real code runs with 1 to 8 processes on one machine under the schedules the system and injected delays give; all interleavings only "
            "on the machine. Processes intern their names in the same order. A reduction's result is judged on the root only."),
    "C19": ("TLA+ specification of the square lattice state and of Trotter steps; trace validation of recorded histories of the real simple update, on "
            "one process and under mpirun",
            "Sampled histories on lattices of up to six sites. Gates are exact because the terms are nilpotent, projectors or reflections (with delta_t = ln 2); states are compared with five digits. "
            "The driver contracts the real tensors to the state it logs. With truncation only the shapes are judged. Real double tensors."),
    "C20": ("TLA+ specification of network contraction, replacement and holes; trace validation of recorded histories of the real auxiliary system and "
            "spin configurations, exact on integers",
            "Sampled histories on lattices of up to nine sites. Without truncation only (the cut is never reached)."),
    "C21": ("TLA+ specification of observables, local estimates, moves, acceptance and gradient; trace validation of the real samplers, statistical "
            "conformance of single steps against the specified distribution",
            "Sampled states on lattices of up to six sites; distributions within six standard deviations of 1500 runs; walks reproduced by reseeding "
            "the library's engine. Real double tensors, hermitian terms."),
    "C22": ("TLA+ specification in which saving, restoring, copying and moving are steps that change nothing; trace validation of the histories of the "
            "square lattices with such steps in between, and of conversions",
            "Sampled histories; a new process is imitated by resetting the name table to its state at program start."),
    "C23": ("TLA+ specification of the hamiltonian's action, power steps and expectation values; trace validation of recorded histories of the real "
            "exact lattice, exact on integers up to the logged digits",
            "Sampled terms, states and histories on lattices of up to six sites; results are compared with four or five digits. Real double tensors."),
}
