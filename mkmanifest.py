#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
NOTE = ("Verus proves the contracts of the functions listed in the evidence, extracted from /repo/src on every run, for all inputs; "
        "trusted: the vx extraction rules, the contracts of dependencies listed in trusted_base, Verus/vstd/Z3. ")
BND = "The real code is also run against executable versions of the specification (bounded; finds the failing input, never counted as proved). "
CLAIMS = {
 "C17": NOTE + BND + "fmt's printing of integers and literals is a trusted contract.",
 "C18": NOTE + BND + "io::Write is modelled as a text log; printing of integers and strings is a trusted contract.",
 "C19": NOTE + BND,
 **{f"C0{k}": NOTE + BND + "Readers are modelled as a finite stream of bytes (contracts of read_exact, fill_buf, consume and seek_relative on Read/BufRead/Seek are trusted)." for k in (1, 2, 3, 4, 5, 8)},
 "C06": NOTE + BND + "The conversion fn pointer is an opaque deterministic function; Primitive constants and NumCast of u8 are trusted; pixels::<D> is proved for D = u8.",
 "C07": NOTE + BND + "The image crate's types and ImageBuffer::from_vec / from_fn are trusted contracts; Iterator::map/for_each/collect chains are rewritten to loops.",
 **{k: NOTE + BND + "nom's combinators and f64 arithmetic are trusted contracts; the .sub file is the byte slice given to the parser." for k in ("C09", "C10", "C11", "C12", "C13", "C16")},
 "C14": NOTE + BND + "nom's combinators are trusted contracts.",
 "C15": NOTE + BND + "The image crate's types and ImageBuffer::from_fn, iter_fixed's adapters and the conversion fn pointer (an opaque deterministic function) are trusted contracts.",
 "C20": NOTE + BND + "nom's combinators, str::from_utf8 and u8::from_str_radix are trusted contracts.",
 "C21": NOTE + BND + "BufRead::read_line, the two regular expressions, str::trim* and the default palette's printed value are trusted contracts; lines are valid UTF-8 or read_line fails.",
 "C22": NOTE + BND + "The image crate's LumaA and Luma are trusted contracts.",
 "C23": NOTE + BND + "Files are modelled by their contents and whether they can be read.",
 "C24": NOTE + BND + "The file system is modelled by uninterpreted facts learned from the outcome of is_dir, create_dir_all and ImageBuffer::save and by permissions the writes need; paths are their texts; the images form a finite sequence; Iterator::enumerate / try_for_each are trusted contracts.",
}
PENDING = {}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none", "enable": "no hooks: the checks extract the functions from /repo/src and use the public API", "source_commits": []},
 "checks": [{
   "property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
   "technique": "contract-based deductive verification (Verus) of the mechanically extracted functions",
   "level": "proof", "level_note": CLAIMS[p]} for p in ids if p in CLAIMS],
 "not_applicable": [{"property": p, "reason": PENDING.get(p, "contracts not written yet (work in progress)")} for p in ids if p not in CLAIMS],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
