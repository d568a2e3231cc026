"""What each check takes for granted and does not decide (goes into the evidence)."""
SLV = ["each function terminates its calls: recursion depth and stack size are not bounded (loops have a decreasing measure unless noted)",
       "sequential execution: no other thread touches the data",
       "callbacks supplied by the user are functions of their arguments only and touch nothing of the container"]
RECURSION = "the recursion ends (the tree or decomposition being finite is what bounds it)"
UTF8 = "charstr_decode_utf8_codepoint and charstr_encode_utf8_codepoint behave as their contracts say (decided by C13 on the same tree)"
TABLES = "the generated table functions are functions of their arguments (decided over the whole domain by C23; the facts used here are re-decided by this check)"
ALLOC = "fsalloc, fsrealloc and fscalloc return a block or do not return (C25); the system's realloc() is correct"
LISTS = "list_append/make_list behave as their contracts say (decided by C01 on the same tree)"
CMP = "the comparator is a total preorder on keys, the hash function agrees with it (the precondition of the container)"
P = {
    "C01": ["list_get_by_index: fewer than 2^31 elements", "list_insert_before: the element named is not NULL and belongs to the list", ALLOC],
    "C02": [CMP, RECURSION, ALLOC, "fewer than 2^62 elements"],
    "C03": [CMP, RECURSION, ALLOC, "fewer than 2^62 elements"],
    "C04": [CMP, RECURSION],
    "C05": [CMP, ALLOC], "C06": [CMP, ALLOC],
    "C07": [CMP, ALLOC, "the relocation callback does not modify the queue"],
    "C08": [CMP, ALLOC, "the relocation callback does not modify the queue", "queued elements are distinct (as the property says)"],
    "C09": ["the size of the set is at most INT_MAX", ALLOC],
    "C10": ["make_byte_array: max_size is at least 1", "a stream callback returns at most the count it was given",
            "byte_array_copy: the source does not overlap the array", ALLOC],
    "C11": [ALLOC], "C12": [ALLOC],
    "C13": [], "C14": [UTF8, ALLOC], "C15": [],
    "C16": ["the custom encoder is a constant function of the byte and returns NULL or a string", ALLOC],
    "C17": [LISTS, UTF8, ALLOC, "charstr_split: the delimiter is not NUL; charstr_split_str: the delimiter is not empty"],
    "C18": ["the epoch value lies within five million years of 1970"], "C19": [], "C20": [],
    "C21": [UTF8, TABLES, RECURSION, "vector length arrays of a combining sequence fit on the stack"],
    "C22": [UTF8, TABLES, ALLOC],
    "C23": ["the data files in /repo are the oracle; that they are the published ones is not decided"],
    "C24": [CMP, ALLOC, RECURSION, "the caller hands in live objects and does not use an element after destroying it"],
    "C25": ["realloc() of the C library, the setter functions are called before or between, never during, allocations"],
}


def of(pid):
    cbmc = pid in ("C13", "C19", "C25")
    return P.get(pid, []) + ([] if cbmc or pid == "C23" else SLV)
