#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place the properties are described)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="exploration", claimed=True, reason=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, observe=observe, technique=technique, note=note, level=level, claimed=claimed, reason=reason))

CODEC_WHY = ("The existing tests write and read a handful of fixed values per type; the statement is about every value, "
             "and the defects live at boundaries (escaping, signs, precision, extreme magnitudes, empty and NULL elements) that the samples don't touch.")
CODEC_NOTE = ("Generated values of every (PostgreSQL type, Go type) pair of the family go through a real PostgreSQL server; three oracles per value: "
              "read-back equality, SQL equality with an independently built literal, re-read into a used variable from memory that is scribbled over. "
              "Exploration only: values outside the sampled ones are not covered.")
def codec(id, title, what, files, extra=""):
    prop(id, title,
         f"For every pair of a Go type and a PostgreSQL type among {what}, writing any Go value that the PostgreSQL type can represent stores exactly that value in the database, and reading it back gives the value that was written, element for element. "
         "A nil slice or map is stored as NULL, which is not the same as an empty one; neither writing changes the caller's value, nor does what was read share memory with the driver." + extra,
         ["inputs"], "All Go values of all supported Go types of the family that have a counterpart in the PostgreSQL type, including extreme, empty, nil and oddly formatted ones.",
         CODEC_WHY, files,
         [{"name": "driver.Valuer / sql.Scanner pairs that format and parse PostgreSQL's text representation", "where": "pgsql/*.go"},
          {"name": "shared parsing and quoting helpers", "where": "pgsql/convert_util.go"}],
         ["the value the server stores (compared in SQL)", "the Go value that is scanned"],
         "property-based round-trip and differential testing (rapid) against PostgreSQL", CODEC_NOTE)

codec("P01", "Arrays and vectors of numbers and booleans round-trip exactly", "arrays and vectors of integers, floats, numerics and booleans",
      ["pgsql/int2arr.go", "pgsql/int4arr.go", "pgsql/int8arr.go", "pgsql/float4arr.go", "pgsql/float8arr.go", "pgsql/numericarr.go", "pgsql/boolarr.go", "pgsql/int2vector.go", "pgsql/int2vectorarr.go", "pgsql/convert_util.go"])
codec("P02", "Numeric ranges and arrays of ranges round-trip exactly", "integer and numeric ranges and arrays of them",
      ["pgsql/int4range.go", "pgsql/int8range.go", "pgsql/numrange.go", "pgsql/int4rangearr.go", "pgsql/int8rangearr.go", "pgsql/numrangearr.go", "pgsql/convert_util.go"])
codec("P03", "Text-like values, bytes, UUIDs and documents round-trip exactly", "text, character, byte, UUID, JSON and XML types and arrays of them",
      ["pgsql/textarr.go", "pgsql/varchararr.go", "pgsql/char.go", "pgsql/chararr.go", "pgsql/bpchar.go", "pgsql/bpchararr.go", "pgsql/byteaarr.go", "pgsql/uuid.go", "pgsql/uuidarr.go", "pgsql/json.go", "pgsql/jsonarr.go", "pgsql/xml.go", "pgsql/xmlarr.go", "pgsql/convert_util.go"])
codec("P04", "hstore and text-search values round-trip exactly", "hstore, tsvector and tsquery and arrays of them",
      ["pgsql/hstore.go", "pgsql/hstorearr.go", "pgsql/tsvector.go", "pgsql/tsvectorarr.go", "pgsql/tsqueryarr.go", "pgsql/convert_util.go"])
codec("P05", "Geometric values and arrays of them round-trip exactly", "points, segments, boxes, lines, paths and polygons and arrays of them",
      ["pgsql/point.go", "pgsql/pointarr.go", "pgsql/lseg.go", "pgsql/lsegarr.go", "pgsql/box.go", "pgsql/boxarr.go", "pgsql/line.go", "pgsql/linearr.go", "pgsql/path.go", "pgsql/patharr.go", "pgsql/polygon.go", "pgsql/polygonarr.go", "pgsql/convert_util.go"])
codec("P06", "Dates, times and ranges of them round-trip in any time zone", "dates, times and timestamps with and without time zone, their ranges, and arrays of them (at microsecond precision, and whatever the time zone of the value or of the server)",
      ["pgsql/date.go", "pgsql/datearr.go", "pgsql/daterange.go", "pgsql/daterangearr.go", "pgsql/time.go", "pgsql/timearr.go", "pgsql/timetz.go", "pgsql/timetzarr.go", "pgsql/timestamparr.go", "pgsql/timestamptzarr.go", "pgsql/tsrange.go", "pgsql/tsrangearr.go", "pgsql/tstzrange.go", "pgsql/tstzrangearr.go", "pgsql/convert_util.go"])
codec("P07", "Bit strings, network addresses and money round-trip exactly", "bit strings, network and hardware addresses, and money and arrays of them",
      ["pgsql/bit.go", "pgsql/bitarr.go", "pgsql/varbit.go", "pgsql/varbitarr.go", "pgsql/inet.go", "pgsql/inetarr.go", "pgsql/cidr.go", "pgsql/cidrarr.go", "pgsql/macaddr.go", "pgsql/macaddrarr.go", "pgsql/macaddr8.go", "pgsql/macaddr8arr.go", "pgsql/money.go", "pgsql/moneyarr.go"])
prop("P08", "Reading a database value never panics or silently corrupts it",
     "Reading any value of a supported column type either fails with an error or gives the database's value: a number that doesn't fit the Go type is refused instead of wrapped or truncated, an array has as many elements in Go as in the database, and a NULL element or an infinite bound never changes what the other elements or bounds are read as. "
     "NULLs read as nil or zero values, no value makes the reader panic, and a NULL read into a variable of a nilable type leaves nothing of the variable's previous value.",
     ["inputs"], "All values that a column of a supported type can hold, read into every supported Go type, including ones no Go value would have been written as.",
     "Tests only read what they have written from Go; values another client stored (NULL elements, unbounded and empty ranges, numbers beyond the Go type) never reach the readers.",
     ["pgsql/convert_util.go", "pgsql/int4rangearr.go", "pgsql/numericarr.go", "pgsql/byteaarr.go", "pgsql/boxarr.go", "pgsql/any.go", "pgsql/chararr.go"],
     [{"name": "sql.Scanner implementations", "where": "pgsql/*.go"}, {"name": "array, range and list parsers", "where": "pgsql/convert_util.go"}],
     ["result or error of a scan of a value produced by the server"],
     "property-based metamorphic and differential testing (rapid) against PostgreSQL",
     "Metamorphic: an array with NULLs put in at generated positions against the same array without; differential: number and range literals against exact rational arithmetic.")

exec(open(os.path.join(here, "tools", "meta_more.py")).read())

def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
            for x in p["files"]:
                if not os.path.exists(os.path.join("/repo", x)):
                    print("missing", p["id"], x)
    m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["claimed"]:
            m["checks"].append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick bash ./check.sh {p['id']}",
                                "thorough_cmd": f"VERIF_TIER=thorough bash ./check.sh {p['id']}",
                                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
