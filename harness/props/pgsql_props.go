package props

import (
	"database/sql"
	"reflect"

	"github.com/frk/gosql/vh/fw"
)

// codecFor picks the codec of a pair of the registry.
func codecFor(p pgFuncs) (codec, bool) {
	var rt reflect.Type
	if p.from != nil {
		rt = reflect.TypeOf(p.from).In(0)
	}
	switch p.pg {
	case "Int2Array":
		return arrayOf(numElem("int2")), true
	case "Int4Array":
		return arrayOf(numElem("int4")), true
	case "Int8Array":
		return arrayOf(numElem("int8")), true
	case "Float4Array":
		return arrayOf(numElem("float4")), true
	case "Float8Array":
		return arrayOf(numElem("float8")), true
	case "NumericArray":
		return arrayOf(numElem("numeric")), true
	case "BoolArray":
		return arrayOf(boolElem()), true
	case "Int2Vector":
		return int2vector(), true
	case "Int2VectorArray":
		return arrayOf(int2vector()), true

	case "Int4Range":
		return rangeOf("int4range", "int4"), true
	case "Int8Range":
		return rangeOf("int8range", "int8"), true
	case "NumRange":
		return rangeOf("numrange", "numeric"), true
	case "Int4RangeArray":
		return arrayOf(rangeOf("int4range", "int4")), true
	case "Int8RangeArray":
		return arrayOf(rangeOf("int8range", "int8")), true
	case "NumRangeArray":
		return arrayOf(rangeOf("numrange", "numeric")), true
	case "DateRange":
		return dateRange(), true
	case "DateRangeArray":
		return arrayOf(dateRange()), true
	case "TsRange":
		return tsRange(), true
	case "TsRangeArray":
		return arrayOf(tsRange()), true
	case "TstzRange":
		return tstzRange(), true
	case "TstzRangeArray":
		return arrayOf(tstzRange()), true

	case "TextArray":
		return arrayOf(textElem("text")), true
	case "VarCharArray":
		return arrayOf(textElem("varchar")), true
	case "Char":
		return charScalar(`"char"`, true), true
	case "BPChar":
		return charScalar("char(1)", false), true
	case "CharArray":
		return charArray(`"char"`, true), true
	case "BPCharArray":
		return charArray("char(1)", false), true
	case "ByteaArray":
		return arrayOf(byteaElem()), true
	case "UUID":
		return uuidElem(), true
	case "UUIDArray":
		return arrayOf(uuidElem()), true
	case "JSONArray":
		return arrayOf(jsonElem("json")), true
	case "XMLArray":
		return arrayOf(xmlElem()), true

	case "HStore":
		return hstoreElem(), true
	case "HStoreArray":
		return arrayOf(hstoreElem()), true
	case "TSVector":
		return tsvectorElem(), true
	case "TSVectorArray":
		return arrayOf(tsvectorElem()), true
	case "TSQueryArray":
		return arrayOf(tsqueryElem()), true

	case "Point":
		return pointElem(), true
	case "PointArray":
		return arrayOf(pointElem()), true
	case "Lseg":
		return lsegElem(), true
	case "LsegArray":
		return arrayOf(lsegElem()), true
	case "Box":
		return boxElem(), true
	case "BoxArray":
		return arrayOf(boxElem()), true
	case "Line":
		return lineElem(), true
	case "LineArray":
		return arrayOf(lineElem()), true
	case "Path":
		return pointListCodec("path", "[", "]"), true
	case "PathArray":
		return arrayOf(pointListCodec("path", "[", "]")), true
	case "Polygon":
		return pointListCodec("polygon", "(", ")"), true
	case "PolygonArray":
		return arrayOf(pointListCodec("polygon", "(", ")")), true

	case "Bit":
		return bitElem(), true
	case "BitArray":
		return arrayOf(bitElem()), true
	case "VarBit":
		return varbitElem(false), true
	case "VarBitArray":
		return arrayOf(varbitElem(true)), true
	case "Inet":
		return inetFor(rt), true
	case "InetArray":
		return arrayOf(inetFor(rt)), true
	case "CIDR":
		return netElem("cidr"), true
	case "CIDRArray":
		return arrayOf(netElem("cidr")), true
	case "MACAddr":
		return macElem("macaddr", 6), true
	case "MACAddrArray":
		return arrayOf(macElem("macaddr", 6)), true
	case "MACAddr8":
		return macElem("macaddr8", 8), true
	case "MACAddr8Array":
		return arrayOf(macElem("macaddr8", 8)), true
	case "Money":
		return moneyElem(), true
	case "MoneyArray":
		return arrayOf(moneyElem()), true

	case "DateArray":
		return arrayOf(dateElem()), true
	case "TimeArray":
		return arrayOf(timeElem()), true
	case "TimetzArray":
		return arrayOf(timetzElem()), true
	case "TimestampArray":
		return arrayOf(timestampElem()), true
	case "TimestamptzArray":
		return arrayOf(timestamptzElem()), true
	}
	return codec{}, false
}

// families of registry entries per property
var pgFamilies = map[string][]string{
	"P01": {"Int2Array", "Int4Array", "Int8Array", "Float4Array", "Float8Array", "NumericArray", "BoolArray", "Int2Vector", "Int2VectorArray"},
	"P02": {"Int4Range", "Int8Range", "NumRange", "Int4RangeArray", "Int8RangeArray", "NumRangeArray"},
	"P03": {"TextArray", "VarCharArray", "Char", "BPChar", "CharArray", "BPCharArray", "ByteaArray", "UUID", "UUIDArray", "JSONArray", "XMLArray"},
	"P04": {"HStore", "HStoreArray", "TSVector", "TSVectorArray", "TSQueryArray"},
	"P05": {"Point", "PointArray", "Lseg", "LsegArray", "Box", "BoxArray", "Line", "LineArray", "Path", "PathArray", "Polygon", "PolygonArray"},
	"P06": {"DateArray", "TimeArray", "TimetzArray", "TimestampArray", "TimestamptzArray", "DateRange", "DateRangeArray", "TsRange", "TsRangeArray", "TstzRange", "TstzRangeArray"},
	"P07": {"Bit", "BitArray", "VarBit", "VarBitArray", "Inet", "InetArray", "CIDR", "CIDRArray", "MACAddr", "MACAddrArray", "MACAddr8", "MACAddr8Array", "Money", "MoneyArray"},
}

func familySubs(r *fw.Run, id string, db *sql.DB, n int, suffix string) (subs []fw.Sub) {
	in := map[string]bool{}
	for _, f := range pgFamilies[id] {
		in[f] = true
	}
	for _, p := range pgRegistry {
		if !in[p.pg] || p.from == nil {
			continue
		}
		c, ok := codecFor(p)
		if !ok {
			panic("no codec for " + p.name)
		}
		p.name += suffix
		subs = append(subs, codecCheck(r, db, p, c, n))
	}
	return subs
}

func init() {
	for _, id := range []string{"P01", "P02", "P03", "P04", "P05", "P06", "P07"} {
		fw.Register(&fw.Property{
			ID:   id,
			Rule: "a value counts as non-trivial if it is not nil, empty or zero; distinct values are counted by hash",
			Subs: func(r *fw.Run) []fw.Sub {
				db := r.DB("codec", "CREATE EXTENSION IF NOT EXISTS hstore;")
				db.SetMaxOpenConns(8)
				subs := familySubs(r, id, db, r.N(150, 2000), "")
				switch id {
				case "P03":
					subs = append(subs, docCheck(db, "json", false, r.N(300, 5000)), docCheck(db, "jsonb", false, r.N(300, 5000)), docCheck(db, "xml", true, r.N(300, 5000)))
				case "P06":
					// servers in other time zones: one east of UTC by a fraction of an hour, one west
					for _, z := range [][2]string{{"kolkata", "Asia/Kolkata"}, {"stjohns", "America/St_Johns"}, {"utc", "UTC"}} {
						zdb := r.DB("codec_"+z[0], "CREATE EXTENSION IF NOT EXISTS hstore; ALTER DATABASE codec_"+z[0]+" SET timezone TO '"+z[1]+"';")
						zdb.SetMaxOpenConns(4)
						// only connections opened from now on have the zone
						zdb.SetMaxIdleConns(0)
						zdb.SetMaxIdleConns(4)
						subs = append(subs, familySubs(r, id, zdb, r.N(80, 1500), "@"+z[1])...)
					}
					for _, p := range pgRegistry {
						if t := map[string]string{"Date": "date", "Time": "time", "Timetz": "timetz"}[p.pg]; t != "" {
							subs = append(subs, timeText(db, p, t, r.N(300, 5000)))
						}
					}
				}
				return subs
			},
		})
	}
}
