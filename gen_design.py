"""Writes DESIGN.md: the prose below, the notes of lib/props.py, the seeded bugs and the findings."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import NOT_APPLICABLE, PROPS  # noqa: E402

HEAD = """# Design

(Generated by gen_design.py from the prose in it, lib/props.py, the seeded bugs and known_findings.txt.)

The technique is contract-based deductive verification of the real code.  On every run a check reads /repo's current
source, extracts the functions that the property depends on (`lib/rustx.py`), weaves contracts, loop invariants and ghost
code into that text at structural positions (`contracts/*.py`), renders one Verus file per unit (`lib/vunit.py`), and
reports what Verus and Z3 say of every obligation.  A caller is checked against the contract of the functions it calls,
not against their bodies.  Two kinds of functions that Verus cannot read, the `transmute` helpers of the decoder and the
floating point colour reduction, are proved by Kani over their whole domain (`lib/kani.py`) and assumed by Verus.

Three things stand around the proof:

* **Must-fail twins.**  Every function under contract is rendered a second time as a twin with the same body, the same
  preconditions and the postcondition `false`, with all other functions and lemmas reduced to their contracts.  A twin that
  verifies would mean contradictory assumptions; the unit then counts as a tool failure, not as proved.
* **A harness** (`harness/*.rs`, compiled as modules of a scratch copy of the crate, so that it calls the real code, private
  functions included, without a hook in /repo).  It compares the code with an independent reference (a reference assembler,
  a reference decoder generated from the instruction table, a parser that splits at the loosest operator, ...).  It gives the
  failing input behind a failed obligation, and it is the labelled bounded stand-in where the verifier cannot decide.  It
  never raises the level of a check to "proof".
* **An extraction that says what it changes.**  The evidence lists, per unit, what was dropped (doc comments, attributes,
  contents of foreign types), each mechanical rewriting, and each assumed contract.

## What the extraction does to the text

Functions and types are cut out by a token-level parser, not rewritten by hand.  The rewritings that occur, each done on the
token level and each listed in the evidence of the unit that uses it:

* loops get invariants, and `for x in xs.iter()` an iterator name; closures get contracts;
* `write!`, `format!` and `eprintln!` become calls of stubs (C17 maps the text of each `write!` to the tokens it is read as);
* patterns that Verus lacks: text literals become the index of the text (`vx_word`, contract proved), slice patterns a
  constructor by length (`vx_args`, contract proved); `continue` in a loop becomes the other branch of an `if`;
* `m[k]` on a HashMap becomes `at_key`, `Box<dyn Trait>` the enum of the trait's implementors found in the source;
* a method named like a keyword of Verus, or a parameter named like its function, gets another name.

If a rewriting does not fit the current text, it raises `Lost`; that is a tool limit, never an alarm.

## Decision policy

1. The harness finds an input on which the real code breaks the property: VIOLATION, with the input in the replay file
   (and the failed obligation, if there is one).
2. Otherwise an obligation failed: `VIOLATION ... no-failing-input-found`; the replay file names the obligation and carries
   the verifier's output.  Exception: where the harness enumerates the property's whole domain (C01, C02) and is quiet, the
   contract merely no longer fits the text; a NOTE is printed and the enumeration decides.
3. Otherwise a tool limit (an anchor is lost, a construct is unsupported, resources ran out): a NOTE is printed, the bounded
   harness decides, and the evidence says level "exploration".

So a behaviour-preserving edit that the contracts do not follow (a renamed local variable that an invariant mentions, a loop
in another shape, a helper that was not there) ends in case 3, quietly, and a behaviour-preserving edit that they do follow
is proved again.  Error specifications are lenient on purpose: an error must be a legitimate reason, not a particular one
of several.

## Cost

One quick check takes 25 to 70 s on 8 cores, most of it the compilation of the harness and its search (20 to 40 s budget);
the proofs themselves take 2 to 15 s of solver time per unit.  The thorough tier gives the harness ten times the budget and
deeper enumerations; the proofs are the same, since they have no bound.

## Properties
"""

WHY = {
    "C01": "Specified: the bytes of each of the 70 forms as arithmetic over the operands (`spec/isatab.py`, written from the documentation), and the number of bytes.  The derive macro's output is regenerated with the repository's own macro code on every run and proved against it.",
    "C02": "Specified: decode of any bytes is the inverse table; lemmas give decode(encode(i) ++ rest) == i and encode(decode(b)) == the consumed prefix.",
    "C03": "Specified: `fit_*` per operand kind, and for Instr::eval, form by form, that an operand is accepted exactly when it fits.",
    "C04": "Specified: where the processor continues (`goes_*`, modulo 65536) and that an accepted operand leads there; lemma `target_reached`.  The same functions specify the disassembler's targets.",
    "C05": "Specified: `ev`, a recursive mathematical value of an expression tree, and `fails`, the failures that occur in it.",
    "C06": "Specified: positions as a recursive function of the statements, each pass against it; the output as a fold of overwrites.",
    "C07": "Specified: `bytes_of` per directive and its legitimate errors.",
    "C08": "Specified: the tables as folds over the definitions, and scope (`dotted` names by region).",
    "C09": "Specified: substitution on trees, the body of a macro in order, freshness through an uninterpreted but injective UUID, and the set of macros that are being expanded as the measure of termination.",
    "C10": "Specified: reachability as a least fixpoint over the successors of the instruction table; the loop invariant is a frontier argument; the measure is the number of positions not yet seen.",
    "C11": "Specified: operands of the listing stand for the decoded values in every environment that respects the listed names, `trailing zeros` and the pieces of undecoded bytes.",
    "C12": "Specified: the bytes of a row as sums of powers of two of dark pixels; the statements that are returned are flattened to bytes.",
    "C13": "Specified: for each pixel, palette[number] is its colour; number and order of the blocks.",
    "C14": "Specified: the 108 bytes, field by field, as a function of the file's content, the names, the text and an arbitrary date.",
    "C15": "Specified: the value of a digit string in a base with separators left out, and the text of an escaped string, as recursive functions over characters.",
    "C16": "Specified: the longest stretch of text without a line end around a position, and the longest run of tokens that start on the line.",
    "C17": "Specified twice: as a declarative grammar (`derives`: tokens, level, tree) and as a function (`reads`).  Lemmas prove that both agree (soundness, completeness, uniqueness); the Pratt parser is proved against the function; the printer is proved against the grammar; `round_trip` joins them.",
    "C18": "Specified: the tokens of each statement (its first words, then values with commas between them), lines that hold nothing but line ends, programs as statements with line ends between them, comments whose every line begins with a semicolon, and one string literal per text (`read` of the lexer inverts `esc`, by induction).  The contract of Formatter counts tokens; each `write!` is rewritten into the tokens of its text on every run.  Oracle of the bounded search: expand, assemble, compare with the image of the original.",
    "C21": "Specified: a reader of lines as recursive functions over the kinds of tokens, written from the documentation and shaped like the grammar, not like the parser; its results are lists of first words and values, the same vocabulary in which C18 states what is printed.  Per mnemonic, a lemma says that the form which C19 chooses has this mnemonic and these operands in this order.",
    "C19": "Specified: per mnemonic, which operand kinds fit which form (generated from the instruction table), the form that is chosen, and the forms a message lists.",
}

TAIL = """
## Not applicable

%s

## Defects found and repaired

Each is a `fix:` commit in /repo and a `fixed:` line of known_findings.txt, which suppresses nothing.

%s

Not repaired, and outside of the properties as stated: a listing of an image in which reached instructions overlap, or whose
branch targets lie outside 0 to 65535, cannot be assembled again (C11 excludes both: there is no text for them); the icon
option `speed=` takes a number of 32 bits and keeps 16 (observation); a raw line break inside a string literal puts what
follows it on another line than its statement (C16 states the grouping as it is).

## False alarms met on the way, and what was done

* C09 first demanded the particular error of the leftmost offence; the code legitimately reports another one first.  Error
  specifications now ask for a legitimate error.
* C10 first asked that the target behind a switch to flash is always followed; the property now says when it counts.
* C11 first had no condition on overlapping instructions and targets outside 0 to 65535, for which no listing exists.
* C17's extraction first dropped the discriminants of `enum Precedence`, so that `Precedence::Bitwise as i32` was 0 to the
  verifier; a planted bug (c17-paren-stops-at-bitwise) showed it.  The discriminants are kept now.
* Must-fail twins were first identified by the function's name alone, so methods of the same name could hide each other.

## Planted bugs

`own` is the outcome of the property's own check: `proof` when an obligation fails, `harness` when only the bounded search finds
it (the changed text left the verifier's reach, or the change is in a part outside of the contracts).

%s

## Assumptions that stay

Verus 0.2026.09 and Z3, Kani 0.68 and CBMC, rustc; the token-level extraction; std's HashMap, HashSet, String slicing,
to_lowercase, from_str_radix, replace and split behave as their assumed contracts say; derived Clone and PartialEq are
structural; UUIDs are fresh; regexes hand over texts of the shape that they describe; the image crate decodes what is in the
file.  Machine integers are machine integers: overflow is an obligation everywhere.  /repo has no unsafe code apart from the
two transmutes, which Kani proves.
"""


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    caught = json.load(open(os.path.join(HERE, "seeded_results.json"))) if os.path.exists(os.path.join(HERE, "seeded_results.json")) else {}
    out = [HEAD]
    for p in props:
        i = p["id"]
        if i not in PROPS:
            continue
        s = PROPS[i]
        out.append("### %s: %s\n" % (i, p["title"]))
        out.append("%s\n" % WHY[i] if WHY.get(i) else "")
        out.append(s["note"] + "\n")
        out.append("Units: %s%s.  Harness: `harness/%s.rs`.  Outside of the proof: %s.\n" % (
            ", ".join("`%s.py:%s`" % x for x in s["units"]), "".join(", Kani `%s`" % k for k in s.get("kani", [])), i.lower(),
            "; ".join(s["unproved"]) or "nothing of the statement"))
        out.append("Why tests cannot: %s\n" % (p["why_tests_cant"]))
    na = "\n".join("* %s: %s" % (k, v) for k, v in NOT_APPLICABLE.items() if k not in PROPS and any(p["id"] == k for p in props)) or "None."
    fixed = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        if m:
            fixed.append("* %s, %s: %s" % m.groups())
    rows = ["| bug | property | needs | breaks | own check |", "|---|---|---|---|---|"]
    sd = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], caught.get(d, "?")))
    out.append(TAIL % (na, "\n".join(fixed), "\n".join(rows)))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(x for x in out if x))


main()
