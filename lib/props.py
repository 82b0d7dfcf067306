"""What decides each property: clauses of the trace specification, stimulus families, models."""
import gen as G

CLAUSES = {
    "C01": ["back"], "C02": ["back", "acc"], "C03": ["size", "sized"], "C04": ["wellformed", "sections"],
    "C05": ["value"], "C06": ["orderly", "memory"], "C07": ["reject"],
    "C08": ["stream", "badframe", "badlength", "orderly"], "C09": ["badframe", "badlength", "stream", "orderly"],
    "C10": ["value", "reject", "kind", "wellformed"], "C11": ["stream", "protoerr", "untouched", "written"],
    "C12": ["value", "tolerated", "reject"], "C13": ["value", "reject", "kind"], "C14": ["value", "reject", "kind"],
    "C15": ["sections", "roundtrip"], "C16": ["sized", "same"], "C17": ["builds"],
    "C18": ["payload", "back", "written", "stream", "arrives"], "C19": ["instant"], "C20": ["text"],
    "C21": ["written", "arrives", "stream"], "C22": ["alike"], "C23": ["made"],
}

COMPOUND = [["variant"], ["list"]] + G.MAPS + G.ARRAYS + G.MULTI
FRAMED = [["performative"]] + G.FRAMES
# (family of stim, as an expression; commands in the quick tier; in the thorough tier)
FAMILIES = {
    "C01": [("encodes_huge", 24, 120), ("encodes(VALUE_TYPES)", 8100, 20000), ("encodes([['variant']])", 8100, 20000), ("encodes_sizes", 2250, 100000)],
    "C02": [("encodes_huge_of('comp', 'amqpframe')", 8, 30), ("transfers_huge", 16, 60), ("encodes(ENC_FRAMES)", 8100, 20000), ("encodes_each", 6300, 12000), ("encodes(ENC_COMPS)", 3600, 8000),
            ("transfers", 1350, 2000)],
    "C03": [("encodes_huge", 16, 120), ("histories_huge", 12, 60), ("encodes(VALUE_TYPES)", 3600, 12000), ("encodes(ENC_COMPS+ENC_FRAMES)", 4500, 12000), ("encodes_sizes", 2250, 100000),
            ("encodes_opt", 1350, 3000), ("encodes_each", 2700, 6000), ("histories", 1350, 3000)],
    "C04": [("encodes_huge", 16, 120), ("histories_huge", 12, 60), ("encodes(VALUE_TYPES)", 4500, 12000), ("encodes(ENC_COMPS+ENC_FRAMES)", 4500, 12000), ("encodes_sizes", 2250, 100000),
            ("encodes_opt", 900, 3000), ("encodes_each", 2700, 6000), ("histories_clean", 1350, 3000)],
    "C05": [("decodes_huge", 32, 160), ("decodes_legal(DEC_TYPES)", 18000, 40000)],
    "C06": [("decodes_broken_texts", 200, 2000), ("decodes_hostile", 4500, 100000), ("decodes_mangled(DEC_TYPES)", 9000, 30000), ("decodes_misfit(DEC_TYPES)", 1800, 6000),
            ("raw_streams", 1800, 4000)],
    "C07": [("decodes_cut(DEC_TYPES)", 19800, 40000)],
    "C08": [("connections((2,3,2,0.1))", 1620, 4000), ("raw_streams", 1350, 4000), ("connections_large", 36, 150)],
    "C09": [("connections((1,1,3,0.4))", 1800, 5000), ("raw_streams", 1350, 3000)],
    "C10": [("decodes_legal(FRAMES)", 2700, 6000), ("decodes_fault(FRAMES)", 4500, 8000), ("decodes_mangled(FRAMES)", 4500, 8000),
            ("encodes(FRAMES)", 1800, 4000)],
    "C11": [("handshakes", 1980, 5000), ("protos", 1000, 1000)],
    "C12": [("decodes_huge", 16, 160), ("decodes_misfit(DEC_TYPES)", 6300, 20000), ("decodes_mangled(COMPOUND+COMPTYPES+UNIONS)", 6300, 15000),
            ("decodes_legal(COMPOUND+COMPTYPES+UNIONS)", 3600, 8000)],
    "C13": [("decodes_legal(COMPTYPES+UNIONS+FRAMED)", 7200, 15000), ("decodes_fault(COMPTYPES+UNIONS+FRAMED)", 7200, 15000)],
    "C14": [("decodes_broken_texts", 600, 4000), ("decodes_fault(DEC_TYPES)", 13500, 30000), ("decodes_legal(RESTRICTED)", 2700, 4000)],
    "C15": [("histories_long", 120, 1000), ("histories_huge", 16, 80), ("histories_clean", 2250, 6000), ("decodes_legal(MESSAGES)", 2700, 6000), ("decodes_mangled(MESSAGES)", 1800, 4000)],
    "C16": [("histories_long", 120, 1000), ("histories_huge", 12, 60), ("histories", 2700, 8000)],
    "C17": [("histories_long", 240, 2000), ("histories", 2700, 8000)],
    "C18": [("transfers_huge", 16, 60), ("transfers", 4500, 8000), ("connections_large", 90, 400), ("connections((1,0,0,0))", 360, 800)],
    "C19": [("times", 10800, 20000)],
    "C20": [("texts", 4500, 10000)],
    "C23": [("makes", 4500, 10000)],
    "C22": [("likes", 3600, 8000)],
    "C21": [("connections((1,0,0,0))", 1800, 5000), ("connections_large", 75, 300), ("prefilled", 1080, 2500), ("handshakes", 540, 1500)],
}
