"""Which models and traces decide which property."""


def T(binname, module, **kw):
    return dict(bin=binname, module=module, **kw)


def M(module, quick=True, big=False, **kw):
    d = dict(module=module, **kw)
    if quick:
        d["quick"] = module + ".cfg"
    if big:
        d["thorough"] = module + "Big.cfg"
        d.setdefault("timeout_thorough", 3600)
    return d


BYTENUM = M("MC_ByteNum")
RESIDUES = M("MC_Residues", big=True)
ALGEBRA = M("MC_Algebra", big=True)
FRAMING = M("MC_Framing", big=True)
HASHES = M("MC_Hashes", big=True)
CIPHERS = M("MC_Ciphers", big=True)
BRANCHLESS = M("MC_Branchless", big=True)
LADDER = M("MC_Ladder", big=True)
# a wrong curve constant must violate the loop invariant: the model is able to fail
LADDER_BROKEN = dict(module="MC_Ladder", quick="MC_LadderBroken.cfg", violates="LoopInvariant")
WEIERSTRASS = M("MC_Weierstrass", big=True)
CHANNEL = M("MC_Channel")
CONTAINER = M("MC_Container", big=True)
FLOW = M("MC_Flow")
PURITY = M("MC_Purity", args=["-workers", "1"])

TRUST = ("Trusted: TLC, the recorder in harness/ (which calls the code and writes what it returned), and the byte arithmetic "
         "accelerators, themselves checked against their TLA+ definitions by MC_ByteNum. ")
SAMPLED = "Exhaustive where stated, otherwise seeded corner-weighted inputs: a violation confined to inputs that are not drawn is not seen. "

PROPS = {}


def prop(i, note, traces, models=(), **kw):
    PROPS[i] = dict(traces=traces, models=list(models), note=note + TRUST, **kw)


prop("C01", "All pairs of 8-bit operands of every arithmetic and bit operation (rows), wider types on corner-weighted operands, every form of call (operator, assignment, trait). " + SAMPLED,
     [T("c01", "Trace_Int")], [BYTENUM])
prop("C02", "All pairs of 8-bit operands; wider types corner-weighted. The bit tricks and the restoring division are checked for all operands of 5-bit (thorough: 8-bit) words in MC_Branchless. " + SAMPLED,
     [T("c02", "Trace_Int", both=True)], [BRANCHLESS])
prop("C03", "All 8-bit and, in the thorough tier, all 16-bit values of every cast; wider corner-weighted; encodings both ways. " + SAMPLED, [T("c03", "Trace_Int")])
prop("C04", "Rows over all 8-bit second operands for many moduli and all inverses modulo every 8-bit modulus; wider types sampled, also with operands that are not reduced. The loops (Euclid, lifting, repeated addition) are checked for every operand of small moduli, with termination, in MC_Residues. " + SAMPLED,
     [T("c04", "Trace_Int")], [RESIDUES])
prop("C05", "Histories generated by TLC from MC_Container are replayed into every container type, and the recorded states checked against the model after every step; the model itself is explored exhaustively at small sizes. ",
     [T("c05", "Trace_Container", both=True, args=["@RUN@/behaviours.ndjson"],
        gen=dict(module="MC_Container", quick="MC_ContainerGen.cfg", args=("-simulate", "num=400", "-depth", "41"), args_thorough=("-simulate", "num=6000", "-depth", "41")))], [CONTAINER])
prop("C06", "Histories weighted towards chunked access, generated by TLC and replayed; the chunk partition is an invariant of MC_Container, and digests over chunks of every length are recorded. ",
     [T("c06", "Trace_Container", both=True, args=["@RUN@/behaviours.ndjson"],
        gen=dict(module="MC_Container", quick="MC_ContainerChunks.cfg", args=("-simulate", "num=400", "-depth", "41"), args_thorough=("-simulate", "num=6000", "-depth", "41")))], [CONTAINER])
prop("C07", "Word views of all widths, hex both ways, element-wise operators on arrays and sequences. " + SAMPLED, [T("c07", "Trace_Array")])
prop("C08", "All operand pairs of types of up to 5 bits (thorough: 8), wider types (up to 512 bits and odd widths) corner-weighted around the bounds; laws of the integers in MC_Algebra. " + SAMPLED,
     [T("c08", "Trace_Bounded", both=True)], [ALGEBRA])
prop("C09", "All operands of small moduli, large moduli corner-weighted; ring laws of the specification in MC_Algebra. " + SAMPLED, [T("c09", "Trace_NatMod", both=True)], [ALGEBRA, RESIDUES])
prop("C10", "All pairs of small polynomials over small fields, larger ones sampled; division and inversion judged by their laws, whose uniqueness is checked in MC_Algebra. " + SAMPLED,
     [T("c10", "Trace_Poly")], [ALGEBRA])
HASH = "The digest of every recorded message equals the TLA+ definition written from the standard; lengths cover every residue of the block size and the boundaries; contents are sampled. The framing has a left inverse for every length (MC_Framing), constants, steps and chaining satisfy their laws (MC_Hashes). "
prop("C11", HASH, [T("c11", "Trace_Hash", both=True)], [FRAMING, HASHES, BYTENUM])
prop("C12", "Key lengths around the block size, every residue of output lengths, refusals. " + SAMPLED, [T("c12", "Trace_Hash", both=True)], [FRAMING, HASHES])
prop("C13", HASH, [T("c13", "Trace_Hash", both=True)], [FRAMING, HASHES])
prop("C14", HASH, [T("c14", "Trace_Hash", both=True)], [FRAMING, HASHES])
prop("C15", "Blocks, key schedules and counter mode over counters near overflow and every residue of the length; the specification satisfies the laws of the cipher (inverse cipher, field, modes) in MC_Ciphers. " + SAMPLED, [T("c15", "Trace_Crypto", both=True)], [CIPHERS])
prop("C16", "Associated data and message lengths around block boundaries, structured field elements. " + SAMPLED, [T("c16", "Trace_Crypto", both=True)], [FRAMING, CIPHERS])
prop("C17", "Block function, quarter rounds, keystream over counters near overflow, every residue of the length. " + SAMPLED, [T("c17", "Trace_Crypto", both=True)], [CIPHERS])
prop("C18", "Keys and messages chosen so that the accumulator comes near the modulus; every residue of the length. " + SAMPLED, [T("c18", "Trace_Crypto", both=True)], [FRAMING, CIPHERS])
prop("C19", "Lengths of associated data and message around block boundaries. " + SAMPLED, [T("c19", "Trace_Crypto", both=True)], [FRAMING, CIPHERS])
prop("C20", "Structured scalars and points (small order, non-canonical, edge bits) against the ladder of the RFC, which MC_Ladder relates to the group law of every small curve, on curve and twist. " + SAMPLED,
     [T("c20", "Trace_Curve", both=True)], [LADDER, LADDER_BROKEN])
prop("C21", "Structured scalars against the affine group law, whose laws and whose agreement with Jacobian coordinates and the ladder MC_Weierstrass checks on every small curve. " + SAMPLED,
     [T("c21", "Trace_Curve", both=True)], [WEIERSTRASS])
prop("C22", "Schedules of sealing, splicing, tampering and delivery generated by TLC from the ideal channel (MC_Channel, exhaustive for two packets) are replayed into the three algorithms: code, concrete specification and ideal must agree on every verdict. ",
     [T("c22", "Trace_Crypto", both=True, args=["@RUN@/behaviours.ndjson"],
        gen=dict(module="MC_Channel", quick="MC_ChannelGen.cfg", args=("-simulate", "num=45", "-depth", "42"), args_thorough=("-simulate", "num=600", "-depth", "42")))], [CHANNEL])
prop("C23", "About 19,000 one-step programs over all secret types, enumerated by TLC, are offered to the compiler; the closure over many steps is checked in MC_Flow. ",
     [T("c23", "Trace_Secrecy", args=["@RUN@/behaviours.ndjson"], gen=dict(module="MC_Secrecy", quick="MC_Secrecy.cfg"))], [FLOW])
prop("C24", "Call histories of every shape up to a bound, over one and several threads, generated by TLC; results must equal those of a fresh process, also of a release build of the library. MC_Purity shows that these shapes expose the usual kinds of hidden state. ",
     [T("c24", "Trace_Purity", release=True, args=["@RUN@/behaviours.ndjson"], gen=dict(module="MC_PurityShapes", quick="MC_PurityShapes.cfg", thorough="MC_PurityShapesBig.cfg"), timeout=1500)], [PURITY])

prop("C25", "All 8-bit values, every power of ten and its neighbours, corner-weighted values of every secret integer type, in every printing form; arrays of every element type. That reading the text gives the value back is checked in MC_Text. " + SAMPLED,
     [T("c25", "Trace_Text", both=True)], [M("MC_Text", big=True)])
prop("C26", "Four hundred draws of every constructor, also on separate threads and in several processes, judged bit by bit, and no eight consecutive bytes of the stream may come twice; a bias below one in five is not seen. MC_Random shows that the judgement separates a fair source from the usual broken ones. ",
     [T("c26", "Trace_Random")], [M("MC_Random")])
prop("C27", "What a file contains is read by the specification itself, byte by byte (JsonText; MC_JsonText checks that reader against the grammar and the tables of the standards). Documents generated by TLC from the specification (every object of up to three or four entries of a pool of right and wrong ones, every order of the declared fields, lists, damaged files), and random documents of all field types, with numbers around the bounds of their types, escaped and wide characters, up to tens of kilobytes, and thousands of texts with bytes and pieces changed, inserted or cut so that most are almost JSON, are written to files and loaded by the code. ",
     [T("c27", "Trace_Vectors", both=True, args=["@RUN@/behaviours.ndjson"], gen=dict(module="MC_Vectors", quick="MC_VectorsGen.cfg"))], [M("MC_Vectors"), M("MC_JsonText")])
RADIX_BROKEN = dict(module="MC_Radix", quick="MC_RadixBroken.cfg", violates="Product")
prop("C28", "Counters at every boundary, every length up to 200 bytes and streams of more than 65536 blocks; limbs at and around their bounds. The multiplication method is checked for every operand on small words in MC_Radix. " + SAMPLED,
     [T("c28", "Trace_Examples")], [M("MC_Radix", big=True), RADIX_BROKEN])
