RULES = {}


def _r(mod, technique, *ids):
    for i in ids:
        RULES[i] = (mod, technique)


_r("random", "abstract interpretation (bit provenance, linear invariants, fixpoints) of the IR", "R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08")
_r("generate", "abstract interpretation of generation over pattern schemas (ghost counters, product domain, failure typestate)", "G01", "G02", "G04", "G05", "G06", "G07", "G08", "G09")
_r("output", "abstract interpretation of output writers and UTF-8 conversion (bit layout of encodings, ghost write position)", "G03", "U01", "U02")
_r("parser", "abstract interpretation of single parser steps from every state (inductive representation invariant, frame conditions)", "P01", "P03", "P04", "P05", "P02", "P06")
_r("container", "abstract interpretation over the heap shapes a container can reach (exact lengths and allocations, opaque contents)", "S01")
_r("container", "abstract interpretation of single operations on an arbitrary map (lazily materialised slots, uninterpreted hashing and equality, witness entry for loops)", "H01")
_r("wordlist", "abstract interpretation of a word list from initialisation to release (modelled file and tokens, array of tracked capacity)", "W01", "W02")
_r("cli", "abstract interpretation of the command-line tool (output automata and ghost counters, symbolic option arguments, constant evaluation of tables)", "X01", "X02", "X03", "X04", "X05")
_r("markov", "abstract interpretation of table operations for any capacity (uninterpreted remainders, witness slot, contracts between operations)", "M01", "M02", "M03", "M04")
_r("lifecycle", "abstract interpretation of releasing functions (witness element, ownership typestate)", "L01")
_r("parser", "abstract interpretation of single parser steps from every state (ownership of what a step drops or allocates)", "L02")
_r("keys", "abstract interpretation with facts of comparisons, exact read and write sets of the hash function", "H02")
_r("small", "abstract interpretation of single operations on an arbitrary array, error or context (witness entry, exact forwarding)", "A01", "E01", "K01", "V01")
_r("effects", "whole-program dataflow (where addresses of static objects go, what is written through them) and classified effects of calls", "T01")
_r("effects", "constant propagation to format arguments over the whole program, conversions matched with argument types", "F01")
