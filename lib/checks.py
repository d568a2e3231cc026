"""One function per property: which contracts decide it."""
import cbmcrun, common, slvrun


def C13(chk):
    cbmcrun.prove_file(chk, "C13.c")


def C19(chk):
    cbmcrun.prove_file(chk, "C19.c")


def C20(chk):
    cbmcrun.prove_file(chk, "C20.c")
    slvrun.prove(chk, "hashfn")


def C25(chk):
    cbmcrun.prove_file(chk, "C25.c")
    slvrun.prove(chk, "fscalloc")


def C01(chk):
    slvrun.prove(chk, "list")


def C07(chk):
    slvrun.prove(chk, "pq")


def C08(chk):
    slvrun.prove(chk, "pq", attr="verifier8")


def C10(chk):
    slvrun.prove(chk, "bytearray")


def C18(chk):
    slvrun.prove(chk, "date")


def C05(chk):
    import hash
    slvrun.prove(chk, "hash", hash.C5)


def C06(chk):
    import hash
    slvrun.prove(chk, "hash", hash.C6)


def C11(chk):
    import b64
    slvrun.prove(chk, "b64", b64.C11)


def C12(chk):
    import b64
    slvrun.prove(chk, "b64", b64.C12, attr="verifier12")


def C09(chk):
    slvrun.prove(chk, "intset")


def C15(chk):
    import charstr
    slvrun.prove(chk, "charstr", list(charstr.C15), attr="verifier15")


def C17(chk):
    import charstr
    slvrun.prove(chk, "charstr", list(charstr.C17) + list(charstr.LISTC), attr="verifier17")


def C14(chk):
    import charstr
    slvrun.prove(chk, "charstr", list(charstr.C14), attr="verifier14")
    slvrun.prove_lemmas(chk, charstr.lemmas14(), "charstr")


def C16(chk):
    import charstr
    slvrun.prove(chk, "charstr", list(charstr.C16), attr="verifier16")
    slvrun.prove_lemmas(chk, charstr.lemmas16(), "charstr")


def _avl(names, others):
    import re

    def run(chk):
        import avl
        slvrun.prove(chk, "avl", names(avl), others=lambda o: re.search(others, o.name) is not None)
        slvrun.prove_ghost(chk, "avl")
    return run


def C02(chk):
    _avl(lambda a: a.C02, "balance|heights? |higher|leans|same shape|original unchanged in shape|the shape is unchanged")(chk)


def C03(chk):
    _avl(lambda a: a.C03, "size|handed back|leak|values|field (obj|cmp|value)|stays the same|the (least|greatest) element|element popped")(chk)


def C04(chk):
    _avl(lambda a: a.C04, "leak")(chk)


def C24(chk):
    """the memory obligations of all containers' proofs: every access within a
    block the function owns, nothing owned left over, and the representation
    invariants later operations rely on; what results say is other properties'"""
    import re
    import avl, hash
    keep = re.compile(r"link|last element|first element|topmost|precondition|call of|invariant|address|leak|owner|reference|capacity|field (first|last|size|root|head|tail)|size is the number")

    def others(o):
        return o.kind not in ("memory", "frame") and not keep.search(o.name)
    for mod, funcs in (("list", None), ("avl", None), ("hash", sorted(set(hash.C5) | set(hash.C6))), ("pq", None),
                       ("intset", None), ("bytearray", None)):
        slvrun.prove(chk, mod, funcs, others=others)


def C23(chk):
    import unidata
    unidata.prove(chk)


def C21(chk):
    import unidata
    slvrun.prove(chk, "unorm")
    unidata.facts(chk, ["charstr_unicode_canonical_combining_class", "charstr_allowed_unicode_normal_forms",
                        "_charstr_unicode_decomposition", "_charstr_unicode_primary_composite"])


def C22(chk):
    import unidata
    slvrun.prove(chk, "puny")
    unidata.facts(chk, ["charstr_idna_mapping", "charstr_idna_status_is_valid", "charstr_idna_status_is_deviation",
                        "charstr_idna_status_is_ignored", "charstr_unicode_category"])
    import unorm
    # the normalisation it calls: its accesses here, what it computes is C21's
    slvrun.prove(chk, "unorm", [c.name for c in unorm.DECOMP + unorm.RECOMP], others=lambda o: o.kind not in ("memory", "frame", "termination"))
