// Code generated by gen_registry.py; the exported conversion functions of package pgsql.
package props

import "github.com/frk/gosql/pgsql"

type pgFuncs struct {
	name, pg, gotype string
	from, to         any
}

var pgRegistry = []pgFuncs{
	{"Any:EmptyInterface", "Any", "EmptyInterface", nil, pgsql.AnyToEmptyInterface},
	{"BPChar:Byte", "BPChar", "Byte", pgsql.BPCharFromByte, pgsql.BPCharToByte},
	{"BPChar:Rune", "BPChar", "Rune", pgsql.BPCharFromRune, pgsql.BPCharToRune},
	{"BPCharArray:ByteSlice", "BPCharArray", "ByteSlice", pgsql.BPCharArrayFromByteSlice, pgsql.BPCharArrayToByteSlice},
	{"BPCharArray:RuneSlice", "BPCharArray", "RuneSlice", pgsql.BPCharArrayFromRuneSlice, pgsql.BPCharArrayToRuneSlice},
	{"BPCharArray:String", "BPCharArray", "String", pgsql.BPCharArrayFromString, pgsql.BPCharArrayToString},
	{"BPCharArray:StringSlice", "BPCharArray", "StringSlice", pgsql.BPCharArrayFromStringSlice, pgsql.BPCharArrayToStringSlice},
	{"Bit:Bool", "Bit", "Bool", pgsql.BitFromBool, nil},
	{"BitArray:BoolSlice", "BitArray", "BoolSlice", pgsql.BitArrayFromBoolSlice, pgsql.BitArrayToBoolSlice},
	{"BitArray:Uint8Slice", "BitArray", "Uint8Slice", pgsql.BitArrayFromUint8Slice, pgsql.BitArrayToUint8Slice},
	{"BitArray:UintSlice", "BitArray", "UintSlice", pgsql.BitArrayFromUintSlice, pgsql.BitArrayToUintSlice},
	{"BoolArray:BoolSlice", "BoolArray", "BoolSlice", pgsql.BoolArrayFromBoolSlice, pgsql.BoolArrayToBoolSlice},
	{"Box:Float64Array2Array2", "Box", "Float64Array2Array2", pgsql.BoxFromFloat64Array2Array2, pgsql.BoxToFloat64Array2Array2},
	{"BoxArray:Float64Array2Array2Slice", "BoxArray", "Float64Array2Array2Slice", pgsql.BoxArrayFromFloat64Array2Array2Slice, pgsql.BoxArrayToFloat64Array2Array2Slice},
	{"ByteaArray:ByteSliceSlice", "ByteaArray", "ByteSliceSlice", pgsql.ByteaArrayFromByteSliceSlice, pgsql.ByteaArrayToByteSliceSlice},
	{"ByteaArray:StringSlice", "ByteaArray", "StringSlice", pgsql.ByteaArrayFromStringSlice, pgsql.ByteaArrayToStringSlice},
	{"CIDR:IPNet", "CIDR", "IPNet", pgsql.CIDRFromIPNet, pgsql.CIDRToIPNet},
	{"CIDRArray:IPNetSlice", "CIDRArray", "IPNetSlice", pgsql.CIDRArrayFromIPNetSlice, pgsql.CIDRArrayToIPNetSlice},
	{"Char:Byte", "Char", "Byte", pgsql.CharFromByte, pgsql.CharToByte},
	{"Char:Rune", "Char", "Rune", pgsql.CharFromRune, pgsql.CharToRune},
	{"CharArray:ByteSlice", "CharArray", "ByteSlice", pgsql.CharArrayFromByteSlice, pgsql.CharArrayToByteSlice},
	{"CharArray:RuneSlice", "CharArray", "RuneSlice", pgsql.CharArrayFromRuneSlice, pgsql.CharArrayToRuneSlice},
	{"CharArray:String", "CharArray", "String", pgsql.CharArrayFromString, pgsql.CharArrayToString},
	{"CharArray:StringSlice", "CharArray", "StringSlice", pgsql.CharArrayFromStringSlice, pgsql.CharArrayToStringSlice},
	{"Date:ByteSlice", "Date", "ByteSlice", nil, pgsql.DateToByteSlice},
	{"Date:String", "Date", "String", nil, pgsql.DateToString},
	{"Date:Time", "Date", "Time", nil, pgsql.DateToTime},
	{"DateArray:TimeSlice", "DateArray", "TimeSlice", pgsql.DateArrayFromTimeSlice, pgsql.DateArrayToTimeSlice},
	{"DateRange:TimeArray2", "DateRange", "TimeArray2", pgsql.DateRangeFromTimeArray2, pgsql.DateRangeToTimeArray2},
	{"DateRangeArray:TimeArray2Slice", "DateRangeArray", "TimeArray2Slice", pgsql.DateRangeArrayFromTimeArray2Slice, pgsql.DateRangeArrayToTimeArray2Slice},
	{"Float4Array:Float32Slice", "Float4Array", "Float32Slice", pgsql.Float4ArrayFromFloat32Slice, pgsql.Float4ArrayToFloat32Slice},
	{"Float4Array:Float64Slice", "Float4Array", "Float64Slice", pgsql.Float4ArrayFromFloat64Slice, pgsql.Float4ArrayToFloat64Slice},
	{"Float8Array:Float32Slice", "Float8Array", "Float32Slice", pgsql.Float8ArrayFromFloat32Slice, pgsql.Float8ArrayToFloat32Slice},
	{"Float8Array:Float64Slice", "Float8Array", "Float64Slice", pgsql.Float8ArrayFromFloat64Slice, pgsql.Float8ArrayToFloat64Slice},
	{"HStore:NullStringMap", "HStore", "NullStringMap", pgsql.HStoreFromNullStringMap, pgsql.HStoreToNullStringMap},
	{"HStore:StringMap", "HStore", "StringMap", pgsql.HStoreFromStringMap, pgsql.HStoreToStringMap},
	{"HStore:StringPtrMap", "HStore", "StringPtrMap", pgsql.HStoreFromStringPtrMap, pgsql.HStoreToStringPtrMap},
	{"HStoreArray:NullStringMapSlice", "HStoreArray", "NullStringMapSlice", pgsql.HStoreArrayFromNullStringMapSlice, pgsql.HStoreArrayToNullStringMapSlice},
	{"HStoreArray:StringMapSlice", "HStoreArray", "StringMapSlice", pgsql.HStoreArrayFromStringMapSlice, pgsql.HStoreArrayToStringMapSlice},
	{"HStoreArray:StringPtrMapSlice", "HStoreArray", "StringPtrMapSlice", pgsql.HStoreArrayFromStringPtrMapSlice, pgsql.HStoreArrayToStringPtrMapSlice},
	{"Inet:IP", "Inet", "IP", pgsql.InetFromIP, pgsql.InetToIP},
	{"Inet:IPNet", "Inet", "IPNet", pgsql.InetFromIPNet, pgsql.InetToIPNet},
	{"InetArray:IPNetSlice", "InetArray", "IPNetSlice", pgsql.InetArrayFromIPNetSlice, pgsql.InetArrayToIPNetSlice},
	{"InetArray:IPSlice", "InetArray", "IPSlice", pgsql.InetArrayFromIPSlice, pgsql.InetArrayToIPSlice},
	{"Int2Array:Float32Slice", "Int2Array", "Float32Slice", pgsql.Int2ArrayFromFloat32Slice, pgsql.Int2ArrayToFloat32Slice},
	{"Int2Array:Float64Slice", "Int2Array", "Float64Slice", pgsql.Int2ArrayFromFloat64Slice, pgsql.Int2ArrayToFloat64Slice},
	{"Int2Array:Int16Slice", "Int2Array", "Int16Slice", pgsql.Int2ArrayFromInt16Slice, pgsql.Int2ArrayToInt16Slice},
	{"Int2Array:Int32Slice", "Int2Array", "Int32Slice", pgsql.Int2ArrayFromInt32Slice, pgsql.Int2ArrayToInt32Slice},
	{"Int2Array:Int64Slice", "Int2Array", "Int64Slice", pgsql.Int2ArrayFromInt64Slice, pgsql.Int2ArrayToInt64Slice},
	{"Int2Array:Int8Slice", "Int2Array", "Int8Slice", pgsql.Int2ArrayFromInt8Slice, pgsql.Int2ArrayToInt8Slice},
	{"Int2Array:IntSlice", "Int2Array", "IntSlice", pgsql.Int2ArrayFromIntSlice, pgsql.Int2ArrayToIntSlice},
	{"Int2Array:Uint16Slice", "Int2Array", "Uint16Slice", pgsql.Int2ArrayFromUint16Slice, pgsql.Int2ArrayToUint16Slice},
	{"Int2Array:Uint32Slice", "Int2Array", "Uint32Slice", pgsql.Int2ArrayFromUint32Slice, pgsql.Int2ArrayToUint32Slice},
	{"Int2Array:Uint64Slice", "Int2Array", "Uint64Slice", pgsql.Int2ArrayFromUint64Slice, pgsql.Int2ArrayToUint64Slice},
	{"Int2Array:Uint8Slice", "Int2Array", "Uint8Slice", pgsql.Int2ArrayFromUint8Slice, pgsql.Int2ArrayToUint8Slice},
	{"Int2Array:UintSlice", "Int2Array", "UintSlice", pgsql.Int2ArrayFromUintSlice, pgsql.Int2ArrayToUintSlice},
	{"Int2Vector:Float32Slice", "Int2Vector", "Float32Slice", pgsql.Int2VectorFromFloat32Slice, pgsql.Int2VectorToFloat32Slice},
	{"Int2Vector:Float64Slice", "Int2Vector", "Float64Slice", pgsql.Int2VectorFromFloat64Slice, pgsql.Int2VectorToFloat64Slice},
	{"Int2Vector:Int16Slice", "Int2Vector", "Int16Slice", pgsql.Int2VectorFromInt16Slice, pgsql.Int2VectorToInt16Slice},
	{"Int2Vector:Int32Slice", "Int2Vector", "Int32Slice", pgsql.Int2VectorFromInt32Slice, pgsql.Int2VectorToInt32Slice},
	{"Int2Vector:Int64Slice", "Int2Vector", "Int64Slice", pgsql.Int2VectorFromInt64Slice, pgsql.Int2VectorToInt64Slice},
	{"Int2Vector:Int8Slice", "Int2Vector", "Int8Slice", pgsql.Int2VectorFromInt8Slice, pgsql.Int2VectorToInt8Slice},
	{"Int2Vector:IntSlice", "Int2Vector", "IntSlice", pgsql.Int2VectorFromIntSlice, pgsql.Int2VectorToIntSlice},
	{"Int2Vector:Uint16Slice", "Int2Vector", "Uint16Slice", pgsql.Int2VectorFromUint16Slice, pgsql.Int2VectorToUint16Slice},
	{"Int2Vector:Uint32Slice", "Int2Vector", "Uint32Slice", pgsql.Int2VectorFromUint32Slice, pgsql.Int2VectorToUint32Slice},
	{"Int2Vector:Uint64Slice", "Int2Vector", "Uint64Slice", pgsql.Int2VectorFromUint64Slice, pgsql.Int2VectorToUint64Slice},
	{"Int2Vector:Uint8Slice", "Int2Vector", "Uint8Slice", pgsql.Int2VectorFromUint8Slice, pgsql.Int2VectorToUint8Slice},
	{"Int2Vector:UintSlice", "Int2Vector", "UintSlice", pgsql.Int2VectorFromUintSlice, pgsql.Int2VectorToUintSlice},
	{"Int2VectorArray:Float32SliceSlice", "Int2VectorArray", "Float32SliceSlice", pgsql.Int2VectorArrayFromFloat32SliceSlice, pgsql.Int2VectorArrayToFloat32SliceSlice},
	{"Int2VectorArray:Float64SliceSlice", "Int2VectorArray", "Float64SliceSlice", pgsql.Int2VectorArrayFromFloat64SliceSlice, pgsql.Int2VectorArrayToFloat64SliceSlice},
	{"Int2VectorArray:Int16SliceSlice", "Int2VectorArray", "Int16SliceSlice", pgsql.Int2VectorArrayFromInt16SliceSlice, pgsql.Int2VectorArrayToInt16SliceSlice},
	{"Int2VectorArray:Int32SliceSlice", "Int2VectorArray", "Int32SliceSlice", pgsql.Int2VectorArrayFromInt32SliceSlice, pgsql.Int2VectorArrayToInt32SliceSlice},
	{"Int2VectorArray:Int64SliceSlice", "Int2VectorArray", "Int64SliceSlice", pgsql.Int2VectorArrayFromInt64SliceSlice, pgsql.Int2VectorArrayToInt64SliceSlice},
	{"Int2VectorArray:Int8SliceSlice", "Int2VectorArray", "Int8SliceSlice", pgsql.Int2VectorArrayFromInt8SliceSlice, pgsql.Int2VectorArrayToInt8SliceSlice},
	{"Int2VectorArray:IntSliceSlice", "Int2VectorArray", "IntSliceSlice", pgsql.Int2VectorArrayFromIntSliceSlice, pgsql.Int2VectorArrayToIntSliceSlice},
	{"Int2VectorArray:Uint16SliceSlice", "Int2VectorArray", "Uint16SliceSlice", pgsql.Int2VectorArrayFromUint16SliceSlice, pgsql.Int2VectorArrayToUint16SliceSlice},
	{"Int2VectorArray:Uint32SliceSlice", "Int2VectorArray", "Uint32SliceSlice", pgsql.Int2VectorArrayFromUint32SliceSlice, pgsql.Int2VectorArrayToUint32SliceSlice},
	{"Int2VectorArray:Uint64SliceSlice", "Int2VectorArray", "Uint64SliceSlice", pgsql.Int2VectorArrayFromUint64SliceSlice, pgsql.Int2VectorArrayToUint64SliceSlice},
	{"Int2VectorArray:Uint8SliceSlice", "Int2VectorArray", "Uint8SliceSlice", pgsql.Int2VectorArrayFromUint8SliceSlice, pgsql.Int2VectorArrayToUint8SliceSlice},
	{"Int2VectorArray:UintSliceSlice", "Int2VectorArray", "UintSliceSlice", pgsql.Int2VectorArrayFromUintSliceSlice, pgsql.Int2VectorArrayToUintSliceSlice},
	{"Int4Array:Float32Slice", "Int4Array", "Float32Slice", pgsql.Int4ArrayFromFloat32Slice, pgsql.Int4ArrayToFloat32Slice},
	{"Int4Array:Float64Slice", "Int4Array", "Float64Slice", pgsql.Int4ArrayFromFloat64Slice, pgsql.Int4ArrayToFloat64Slice},
	{"Int4Array:Int16Slice", "Int4Array", "Int16Slice", pgsql.Int4ArrayFromInt16Slice, pgsql.Int4ArrayToInt16Slice},
	{"Int4Array:Int32Slice", "Int4Array", "Int32Slice", pgsql.Int4ArrayFromInt32Slice, pgsql.Int4ArrayToInt32Slice},
	{"Int4Array:Int64Slice", "Int4Array", "Int64Slice", pgsql.Int4ArrayFromInt64Slice, pgsql.Int4ArrayToInt64Slice},
	{"Int4Array:Int8Slice", "Int4Array", "Int8Slice", pgsql.Int4ArrayFromInt8Slice, pgsql.Int4ArrayToInt8Slice},
	{"Int4Array:IntSlice", "Int4Array", "IntSlice", pgsql.Int4ArrayFromIntSlice, pgsql.Int4ArrayToIntSlice},
	{"Int4Array:Uint16Slice", "Int4Array", "Uint16Slice", pgsql.Int4ArrayFromUint16Slice, pgsql.Int4ArrayToUint16Slice},
	{"Int4Array:Uint32Slice", "Int4Array", "Uint32Slice", pgsql.Int4ArrayFromUint32Slice, pgsql.Int4ArrayToUint32Slice},
	{"Int4Array:Uint64Slice", "Int4Array", "Uint64Slice", pgsql.Int4ArrayFromUint64Slice, pgsql.Int4ArrayToUint64Slice},
	{"Int4Array:Uint8Slice", "Int4Array", "Uint8Slice", pgsql.Int4ArrayFromUint8Slice, pgsql.Int4ArrayToUint8Slice},
	{"Int4Array:UintSlice", "Int4Array", "UintSlice", pgsql.Int4ArrayFromUintSlice, pgsql.Int4ArrayToUintSlice},
	{"Int4Range:Float32Array2", "Int4Range", "Float32Array2", pgsql.Int4RangeFromFloat32Array2, pgsql.Int4RangeToFloat32Array2},
	{"Int4Range:Float64Array2", "Int4Range", "Float64Array2", pgsql.Int4RangeFromFloat64Array2, pgsql.Int4RangeToFloat64Array2},
	{"Int4Range:Int16Array2", "Int4Range", "Int16Array2", pgsql.Int4RangeFromInt16Array2, pgsql.Int4RangeToInt16Array2},
	{"Int4Range:Int32Array2", "Int4Range", "Int32Array2", pgsql.Int4RangeFromInt32Array2, pgsql.Int4RangeToInt32Array2},
	{"Int4Range:Int64Array2", "Int4Range", "Int64Array2", pgsql.Int4RangeFromInt64Array2, pgsql.Int4RangeToInt64Array2},
	{"Int4Range:Int8Array2", "Int4Range", "Int8Array2", pgsql.Int4RangeFromInt8Array2, pgsql.Int4RangeToInt8Array2},
	{"Int4Range:IntArray2", "Int4Range", "IntArray2", pgsql.Int4RangeFromIntArray2, pgsql.Int4RangeToIntArray2},
	{"Int4Range:Uint16Array2", "Int4Range", "Uint16Array2", pgsql.Int4RangeFromUint16Array2, pgsql.Int4RangeToUint16Array2},
	{"Int4Range:Uint32Array2", "Int4Range", "Uint32Array2", pgsql.Int4RangeFromUint32Array2, pgsql.Int4RangeToUint32Array2},
	{"Int4Range:Uint64Array2", "Int4Range", "Uint64Array2", pgsql.Int4RangeFromUint64Array2, pgsql.Int4RangeToUint64Array2},
	{"Int4Range:Uint8Array2", "Int4Range", "Uint8Array2", pgsql.Int4RangeFromUint8Array2, pgsql.Int4RangeToUint8Array2},
	{"Int4Range:UintArray2", "Int4Range", "UintArray2", pgsql.Int4RangeFromUintArray2, pgsql.Int4RangeToUintArray2},
	{"Int4RangeArray:Float32Array2Slice", "Int4RangeArray", "Float32Array2Slice", pgsql.Int4RangeArrayFromFloat32Array2Slice, pgsql.Int4RangeArrayToFloat32Array2Slice},
	{"Int4RangeArray:Float64Array2Slice", "Int4RangeArray", "Float64Array2Slice", pgsql.Int4RangeArrayFromFloat64Array2Slice, pgsql.Int4RangeArrayToFloat64Array2Slice},
	{"Int4RangeArray:Int16Array2Slice", "Int4RangeArray", "Int16Array2Slice", pgsql.Int4RangeArrayFromInt16Array2Slice, pgsql.Int4RangeArrayToInt16Array2Slice},
	{"Int4RangeArray:Int32Array2Slice", "Int4RangeArray", "Int32Array2Slice", pgsql.Int4RangeArrayFromInt32Array2Slice, pgsql.Int4RangeArrayToInt32Array2Slice},
	{"Int4RangeArray:Int64Array2Slice", "Int4RangeArray", "Int64Array2Slice", pgsql.Int4RangeArrayFromInt64Array2Slice, pgsql.Int4RangeArrayToInt64Array2Slice},
	{"Int4RangeArray:Int8Array2Slice", "Int4RangeArray", "Int8Array2Slice", pgsql.Int4RangeArrayFromInt8Array2Slice, pgsql.Int4RangeArrayToInt8Array2Slice},
	{"Int4RangeArray:IntArray2Slice", "Int4RangeArray", "IntArray2Slice", pgsql.Int4RangeArrayFromIntArray2Slice, pgsql.Int4RangeArrayToIntArray2Slice},
	{"Int4RangeArray:Uint16Array2Slice", "Int4RangeArray", "Uint16Array2Slice", pgsql.Int4RangeArrayFromUint16Array2Slice, pgsql.Int4RangeArrayToUint16Array2Slice},
	{"Int4RangeArray:Uint32Array2Slice", "Int4RangeArray", "Uint32Array2Slice", pgsql.Int4RangeArrayFromUint32Array2Slice, pgsql.Int4RangeArrayToUint32Array2Slice},
	{"Int4RangeArray:Uint64Array2Slice", "Int4RangeArray", "Uint64Array2Slice", pgsql.Int4RangeArrayFromUint64Array2Slice, pgsql.Int4RangeArrayToUint64Array2Slice},
	{"Int4RangeArray:Uint8Array2Slice", "Int4RangeArray", "Uint8Array2Slice", pgsql.Int4RangeArrayFromUint8Array2Slice, pgsql.Int4RangeArrayToUint8Array2Slice},
	{"Int4RangeArray:UintArray2Slice", "Int4RangeArray", "UintArray2Slice", pgsql.Int4RangeArrayFromUintArray2Slice, pgsql.Int4RangeArrayToUintArray2Slice},
	{"Int8Array:Float32Slice", "Int8Array", "Float32Slice", pgsql.Int8ArrayFromFloat32Slice, pgsql.Int8ArrayToFloat32Slice},
	{"Int8Array:Float64Slice", "Int8Array", "Float64Slice", pgsql.Int8ArrayFromFloat64Slice, pgsql.Int8ArrayToFloat64Slice},
	{"Int8Array:Int16Slice", "Int8Array", "Int16Slice", pgsql.Int8ArrayFromInt16Slice, pgsql.Int8ArrayToInt16Slice},
	{"Int8Array:Int32Slice", "Int8Array", "Int32Slice", pgsql.Int8ArrayFromInt32Slice, pgsql.Int8ArrayToInt32Slice},
	{"Int8Array:Int64Slice", "Int8Array", "Int64Slice", pgsql.Int8ArrayFromInt64Slice, pgsql.Int8ArrayToInt64Slice},
	{"Int8Array:Int8Slice", "Int8Array", "Int8Slice", pgsql.Int8ArrayFromInt8Slice, pgsql.Int8ArrayToInt8Slice},
	{"Int8Array:IntSlice", "Int8Array", "IntSlice", pgsql.Int8ArrayFromIntSlice, pgsql.Int8ArrayToIntSlice},
	{"Int8Array:Uint16Slice", "Int8Array", "Uint16Slice", pgsql.Int8ArrayFromUint16Slice, pgsql.Int8ArrayToUint16Slice},
	{"Int8Array:Uint32Slice", "Int8Array", "Uint32Slice", pgsql.Int8ArrayFromUint32Slice, pgsql.Int8ArrayToUint32Slice},
	{"Int8Array:Uint64Slice", "Int8Array", "Uint64Slice", pgsql.Int8ArrayFromUint64Slice, pgsql.Int8ArrayToUint64Slice},
	{"Int8Array:Uint8Slice", "Int8Array", "Uint8Slice", pgsql.Int8ArrayFromUint8Slice, pgsql.Int8ArrayToUint8Slice},
	{"Int8Array:UintSlice", "Int8Array", "UintSlice", pgsql.Int8ArrayFromUintSlice, pgsql.Int8ArrayToUintSlice},
	{"Int8Range:Float32Array2", "Int8Range", "Float32Array2", pgsql.Int8RangeFromFloat32Array2, pgsql.Int8RangeToFloat32Array2},
	{"Int8Range:Float64Array2", "Int8Range", "Float64Array2", pgsql.Int8RangeFromFloat64Array2, pgsql.Int8RangeToFloat64Array2},
	{"Int8Range:Int16Array2", "Int8Range", "Int16Array2", pgsql.Int8RangeFromInt16Array2, pgsql.Int8RangeToInt16Array2},
	{"Int8Range:Int32Array2", "Int8Range", "Int32Array2", pgsql.Int8RangeFromInt32Array2, pgsql.Int8RangeToInt32Array2},
	{"Int8Range:Int64Array2", "Int8Range", "Int64Array2", pgsql.Int8RangeFromInt64Array2, pgsql.Int8RangeToInt64Array2},
	{"Int8Range:Int8Array2", "Int8Range", "Int8Array2", pgsql.Int8RangeFromInt8Array2, pgsql.Int8RangeToInt8Array2},
	{"Int8Range:IntArray2", "Int8Range", "IntArray2", pgsql.Int8RangeFromIntArray2, pgsql.Int8RangeToIntArray2},
	{"Int8Range:Uint16Array2", "Int8Range", "Uint16Array2", pgsql.Int8RangeFromUint16Array2, pgsql.Int8RangeToUint16Array2},
	{"Int8Range:Uint32Array2", "Int8Range", "Uint32Array2", pgsql.Int8RangeFromUint32Array2, pgsql.Int8RangeToUint32Array2},
	{"Int8Range:Uint64Array2", "Int8Range", "Uint64Array2", pgsql.Int8RangeFromUint64Array2, pgsql.Int8RangeToUint64Array2},
	{"Int8Range:Uint8Array2", "Int8Range", "Uint8Array2", pgsql.Int8RangeFromUint8Array2, pgsql.Int8RangeToUint8Array2},
	{"Int8Range:UintArray2", "Int8Range", "UintArray2", pgsql.Int8RangeFromUintArray2, pgsql.Int8RangeToUintArray2},
	{"Int8RangeArray:Float32Array2Slice", "Int8RangeArray", "Float32Array2Slice", pgsql.Int8RangeArrayFromFloat32Array2Slice, pgsql.Int8RangeArrayToFloat32Array2Slice},
	{"Int8RangeArray:Float64Array2Slice", "Int8RangeArray", "Float64Array2Slice", pgsql.Int8RangeArrayFromFloat64Array2Slice, pgsql.Int8RangeArrayToFloat64Array2Slice},
	{"Int8RangeArray:Int16Array2Slice", "Int8RangeArray", "Int16Array2Slice", pgsql.Int8RangeArrayFromInt16Array2Slice, pgsql.Int8RangeArrayToInt16Array2Slice},
	{"Int8RangeArray:Int32Array2Slice", "Int8RangeArray", "Int32Array2Slice", pgsql.Int8RangeArrayFromInt32Array2Slice, pgsql.Int8RangeArrayToInt32Array2Slice},
	{"Int8RangeArray:Int64Array2Slice", "Int8RangeArray", "Int64Array2Slice", pgsql.Int8RangeArrayFromInt64Array2Slice, pgsql.Int8RangeArrayToInt64Array2Slice},
	{"Int8RangeArray:Int8Array2Slice", "Int8RangeArray", "Int8Array2Slice", pgsql.Int8RangeArrayFromInt8Array2Slice, pgsql.Int8RangeArrayToInt8Array2Slice},
	{"Int8RangeArray:IntArray2Slice", "Int8RangeArray", "IntArray2Slice", pgsql.Int8RangeArrayFromIntArray2Slice, pgsql.Int8RangeArrayToIntArray2Slice},
	{"Int8RangeArray:Uint16Array2Slice", "Int8RangeArray", "Uint16Array2Slice", pgsql.Int8RangeArrayFromUint16Array2Slice, pgsql.Int8RangeArrayToUint16Array2Slice},
	{"Int8RangeArray:Uint32Array2Slice", "Int8RangeArray", "Uint32Array2Slice", pgsql.Int8RangeArrayFromUint32Array2Slice, pgsql.Int8RangeArrayToUint32Array2Slice},
	{"Int8RangeArray:Uint64Array2Slice", "Int8RangeArray", "Uint64Array2Slice", pgsql.Int8RangeArrayFromUint64Array2Slice, pgsql.Int8RangeArrayToUint64Array2Slice},
	{"Int8RangeArray:Uint8Array2Slice", "Int8RangeArray", "Uint8Array2Slice", pgsql.Int8RangeArrayFromUint8Array2Slice, pgsql.Int8RangeArrayToUint8Array2Slice},
	{"Int8RangeArray:UintArray2Slice", "Int8RangeArray", "UintArray2Slice", pgsql.Int8RangeArrayFromUintArray2Slice, pgsql.Int8RangeArrayToUintArray2Slice},
	{"JSONArray:ByteSliceSlice", "JSONArray", "ByteSliceSlice", pgsql.JSONArrayFromByteSliceSlice, pgsql.JSONArrayToByteSliceSlice},
	{"Line:Float64Array3", "Line", "Float64Array3", pgsql.LineFromFloat64Array3, pgsql.LineToFloat64Array3},
	{"LineArray:Float64Array3Slice", "LineArray", "Float64Array3Slice", pgsql.LineArrayFromFloat64Array3Slice, pgsql.LineArrayToFloat64Array3Slice},
	{"Lseg:Float64Array2Array2", "Lseg", "Float64Array2Array2", pgsql.LsegFromFloat64Array2Array2, pgsql.LsegToFloat64Array2Array2},
	{"LsegArray:Float64Array2Array2Slice", "LsegArray", "Float64Array2Array2Slice", pgsql.LsegArrayFromFloat64Array2Array2Slice, pgsql.LsegArrayToFloat64Array2Array2Slice},
	{"MACAddr:HardwareAddr", "MACAddr", "HardwareAddr", pgsql.MACAddrFromHardwareAddr, pgsql.MACAddrToHardwareAddr},
	{"MACAddr8:HardwareAddr", "MACAddr8", "HardwareAddr", pgsql.MACAddr8FromHardwareAddr, pgsql.MACAddr8ToHardwareAddr},
	{"MACAddr8Array:HardwareAddrSlice", "MACAddr8Array", "HardwareAddrSlice", pgsql.MACAddr8ArrayFromHardwareAddrSlice, pgsql.MACAddr8ArrayToHardwareAddrSlice},
	{"MACAddrArray:HardwareAddrSlice", "MACAddrArray", "HardwareAddrSlice", pgsql.MACAddrArrayFromHardwareAddrSlice, pgsql.MACAddrArrayToHardwareAddrSlice},
	{"Money:Int64", "Money", "Int64", pgsql.MoneyFromInt64, pgsql.MoneyToInt64},
	{"MoneyArray:Int64Slice", "MoneyArray", "Int64Slice", pgsql.MoneyArrayFromInt64Slice, pgsql.MoneyArrayToInt64Slice},
	{"NumRange:Float32Array2", "NumRange", "Float32Array2", pgsql.NumRangeFromFloat32Array2, pgsql.NumRangeToFloat32Array2},
	{"NumRange:Float64Array2", "NumRange", "Float64Array2", pgsql.NumRangeFromFloat64Array2, pgsql.NumRangeToFloat64Array2},
	{"NumRange:Int16Array2", "NumRange", "Int16Array2", pgsql.NumRangeFromInt16Array2, pgsql.NumRangeToInt16Array2},
	{"NumRange:Int32Array2", "NumRange", "Int32Array2", pgsql.NumRangeFromInt32Array2, pgsql.NumRangeToInt32Array2},
	{"NumRange:Int64Array2", "NumRange", "Int64Array2", pgsql.NumRangeFromInt64Array2, pgsql.NumRangeToInt64Array2},
	{"NumRange:Int8Array2", "NumRange", "Int8Array2", pgsql.NumRangeFromInt8Array2, pgsql.NumRangeToInt8Array2},
	{"NumRange:IntArray2", "NumRange", "IntArray2", pgsql.NumRangeFromIntArray2, pgsql.NumRangeToIntArray2},
	{"NumRange:Uint16Array2", "NumRange", "Uint16Array2", pgsql.NumRangeFromUint16Array2, pgsql.NumRangeToUint16Array2},
	{"NumRange:Uint32Array2", "NumRange", "Uint32Array2", pgsql.NumRangeFromUint32Array2, pgsql.NumRangeToUint32Array2},
	{"NumRange:Uint64Array2", "NumRange", "Uint64Array2", pgsql.NumRangeFromUint64Array2, pgsql.NumRangeToUint64Array2},
	{"NumRange:Uint8Array2", "NumRange", "Uint8Array2", pgsql.NumRangeFromUint8Array2, pgsql.NumRangeToUint8Array2},
	{"NumRange:UintArray2", "NumRange", "UintArray2", pgsql.NumRangeFromUintArray2, pgsql.NumRangeToUintArray2},
	{"NumRangeArray:Float32Array2Slice", "NumRangeArray", "Float32Array2Slice", pgsql.NumRangeArrayFromFloat32Array2Slice, pgsql.NumRangeArrayToFloat32Array2Slice},
	{"NumRangeArray:Float64Array2Slice", "NumRangeArray", "Float64Array2Slice", pgsql.NumRangeArrayFromFloat64Array2Slice, pgsql.NumRangeArrayToFloat64Array2Slice},
	{"NumRangeArray:Int16Array2Slice", "NumRangeArray", "Int16Array2Slice", pgsql.NumRangeArrayFromInt16Array2Slice, pgsql.NumRangeArrayToInt16Array2Slice},
	{"NumRangeArray:Int32Array2Slice", "NumRangeArray", "Int32Array2Slice", pgsql.NumRangeArrayFromInt32Array2Slice, pgsql.NumRangeArrayToInt32Array2Slice},
	{"NumRangeArray:Int64Array2Slice", "NumRangeArray", "Int64Array2Slice", pgsql.NumRangeArrayFromInt64Array2Slice, pgsql.NumRangeArrayToInt64Array2Slice},
	{"NumRangeArray:Int8Array2Slice", "NumRangeArray", "Int8Array2Slice", pgsql.NumRangeArrayFromInt8Array2Slice, pgsql.NumRangeArrayToInt8Array2Slice},
	{"NumRangeArray:IntArray2Slice", "NumRangeArray", "IntArray2Slice", pgsql.NumRangeArrayFromIntArray2Slice, pgsql.NumRangeArrayToIntArray2Slice},
	{"NumRangeArray:Uint16Array2Slice", "NumRangeArray", "Uint16Array2Slice", pgsql.NumRangeArrayFromUint16Array2Slice, pgsql.NumRangeArrayToUint16Array2Slice},
	{"NumRangeArray:Uint32Array2Slice", "NumRangeArray", "Uint32Array2Slice", pgsql.NumRangeArrayFromUint32Array2Slice, pgsql.NumRangeArrayToUint32Array2Slice},
	{"NumRangeArray:Uint64Array2Slice", "NumRangeArray", "Uint64Array2Slice", pgsql.NumRangeArrayFromUint64Array2Slice, pgsql.NumRangeArrayToUint64Array2Slice},
	{"NumRangeArray:Uint8Array2Slice", "NumRangeArray", "Uint8Array2Slice", pgsql.NumRangeArrayFromUint8Array2Slice, pgsql.NumRangeArrayToUint8Array2Slice},
	{"NumRangeArray:UintArray2Slice", "NumRangeArray", "UintArray2Slice", pgsql.NumRangeArrayFromUintArray2Slice, pgsql.NumRangeArrayToUintArray2Slice},
	{"NumericArray:Float32Slice", "NumericArray", "Float32Slice", pgsql.NumericArrayFromFloat32Slice, pgsql.NumericArrayToFloat32Slice},
	{"NumericArray:Float64Slice", "NumericArray", "Float64Slice", pgsql.NumericArrayFromFloat64Slice, pgsql.NumericArrayToFloat64Slice},
	{"NumericArray:Int16Slice", "NumericArray", "Int16Slice", pgsql.NumericArrayFromInt16Slice, pgsql.NumericArrayToInt16Slice},
	{"NumericArray:Int32Slice", "NumericArray", "Int32Slice", pgsql.NumericArrayFromInt32Slice, pgsql.NumericArrayToInt32Slice},
	{"NumericArray:Int64Slice", "NumericArray", "Int64Slice", pgsql.NumericArrayFromInt64Slice, pgsql.NumericArrayToInt64Slice},
	{"NumericArray:Int8Slice", "NumericArray", "Int8Slice", pgsql.NumericArrayFromInt8Slice, pgsql.NumericArrayToInt8Slice},
	{"NumericArray:IntSlice", "NumericArray", "IntSlice", pgsql.NumericArrayFromIntSlice, pgsql.NumericArrayToIntSlice},
	{"NumericArray:Uint16Slice", "NumericArray", "Uint16Slice", pgsql.NumericArrayFromUint16Slice, pgsql.NumericArrayToUint16Slice},
	{"NumericArray:Uint32Slice", "NumericArray", "Uint32Slice", pgsql.NumericArrayFromUint32Slice, pgsql.NumericArrayToUint32Slice},
	{"NumericArray:Uint64Slice", "NumericArray", "Uint64Slice", pgsql.NumericArrayFromUint64Slice, pgsql.NumericArrayToUint64Slice},
	{"NumericArray:Uint8Slice", "NumericArray", "Uint8Slice", pgsql.NumericArrayFromUint8Slice, pgsql.NumericArrayToUint8Slice},
	{"NumericArray:UintSlice", "NumericArray", "UintSlice", pgsql.NumericArrayFromUintSlice, pgsql.NumericArrayToUintSlice},
	{"Path:Float64Array2Slice", "Path", "Float64Array2Slice", pgsql.PathFromFloat64Array2Slice, pgsql.PathToFloat64Array2Slice},
	{"PathArray:Float64Array2SliceSlice", "PathArray", "Float64Array2SliceSlice", pgsql.PathArrayFromFloat64Array2SliceSlice, pgsql.PathArrayToFloat64Array2SliceSlice},
	{"Point:Float64Array2", "Point", "Float64Array2", pgsql.PointFromFloat64Array2, pgsql.PointToFloat64Array2},
	{"PointArray:Float64Array2Slice", "PointArray", "Float64Array2Slice", pgsql.PointArrayFromFloat64Array2Slice, pgsql.PointArrayToFloat64Array2Slice},
	{"Polygon:Float64Array2Slice", "Polygon", "Float64Array2Slice", pgsql.PolygonFromFloat64Array2Slice, pgsql.PolygonToFloat64Array2Slice},
	{"PolygonArray:Float64Array2SliceSlice", "PolygonArray", "Float64Array2SliceSlice", pgsql.PolygonArrayFromFloat64Array2SliceSlice, pgsql.PolygonArrayToFloat64Array2SliceSlice},
	{"TSQueryArray:ByteSliceSlice", "TSQueryArray", "ByteSliceSlice", pgsql.TSQueryArrayFromByteSliceSlice, pgsql.TSQueryArrayToByteSliceSlice},
	{"TSQueryArray:StringSlice", "TSQueryArray", "StringSlice", pgsql.TSQueryArrayFromStringSlice, pgsql.TSQueryArrayToStringSlice},
	{"TSVector:ByteSliceSlice", "TSVector", "ByteSliceSlice", pgsql.TSVectorFromByteSliceSlice, pgsql.TSVectorToByteSliceSlice},
	{"TSVector:StringSlice", "TSVector", "StringSlice", pgsql.TSVectorFromStringSlice, pgsql.TSVectorToStringSlice},
	{"TSVectorArray:ByteSliceSliceSlice", "TSVectorArray", "ByteSliceSliceSlice", pgsql.TSVectorArrayFromByteSliceSliceSlice, pgsql.TSVectorArrayToByteSliceSliceSlice},
	{"TSVectorArray:StringSliceSlice", "TSVectorArray", "StringSliceSlice", pgsql.TSVectorArrayFromStringSliceSlice, pgsql.TSVectorArrayToStringSliceSlice},
	{"TextArray:ByteSliceSlice", "TextArray", "ByteSliceSlice", pgsql.TextArrayFromByteSliceSlice, pgsql.TextArrayToByteSliceSlice},
	{"TextArray:StringSlice", "TextArray", "StringSlice", pgsql.TextArrayFromStringSlice, pgsql.TextArrayToStringSlice},
	{"Time:ByteSlice", "Time", "ByteSlice", nil, pgsql.TimeToByteSlice},
	{"Time:String", "Time", "String", nil, pgsql.TimeToString},
	{"TimeArray:TimeSlice", "TimeArray", "TimeSlice", pgsql.TimeArrayFromTimeSlice, pgsql.TimeArrayToTimeSlice},
	{"TimestampArray:TimeSlice", "TimestampArray", "TimeSlice", pgsql.TimestampArrayFromTimeSlice, pgsql.TimestampArrayToTimeSlice},
	{"TimestamptzArray:TimeSlice", "TimestamptzArray", "TimeSlice", pgsql.TimestamptzArrayFromTimeSlice, pgsql.TimestamptzArrayToTimeSlice},
	{"Timetz:ByteSlice", "Timetz", "ByteSlice", nil, pgsql.TimetzToByteSlice},
	{"Timetz:String", "Timetz", "String", nil, pgsql.TimetzToString},
	{"TimetzArray:TimeSlice", "TimetzArray", "TimeSlice", pgsql.TimetzArrayFromTimeSlice, pgsql.TimetzArrayToTimeSlice},
	{"TsRange:TimeArray2", "TsRange", "TimeArray2", pgsql.TsRangeFromTimeArray2, pgsql.TsRangeToTimeArray2},
	{"TsRangeArray:TimeArray2Slice", "TsRangeArray", "TimeArray2Slice", pgsql.TsRangeArrayFromTimeArray2Slice, pgsql.TsRangeArrayToTimeArray2Slice},
	{"TstzRange:TimeArray2", "TstzRange", "TimeArray2", pgsql.TstzRangeFromTimeArray2, pgsql.TstzRangeToTimeArray2},
	{"TstzRangeArray:TimeArray2Slice", "TstzRangeArray", "TimeArray2Slice", pgsql.TstzRangeArrayFromTimeArray2Slice, pgsql.TstzRangeArrayToTimeArray2Slice},
	{"UUID:ByteArray16", "UUID", "ByteArray16", pgsql.UUIDFromByteArray16, pgsql.UUIDToByteArray16},
	{"UUIDArray:ByteArray16Slice", "UUIDArray", "ByteArray16Slice", pgsql.UUIDArrayFromByteArray16Slice, pgsql.UUIDArrayToByteArray16Slice},
	{"UUIDArray:ByteSliceSlice", "UUIDArray", "ByteSliceSlice", pgsql.UUIDArrayFromByteSliceSlice, pgsql.UUIDArrayToByteSliceSlice},
	{"UUIDArray:StringSlice", "UUIDArray", "StringSlice", pgsql.UUIDArrayFromStringSlice, pgsql.UUIDArrayToStringSlice},
	{"VarBit:BoolSlice", "VarBit", "BoolSlice", pgsql.VarBitFromBoolSlice, pgsql.VarBitToBoolSlice},
	{"VarBit:Int64", "VarBit", "Int64", pgsql.VarBitFromInt64, pgsql.VarBitToInt64},
	{"VarBit:Uint8Slice", "VarBit", "Uint8Slice", pgsql.VarBitFromUint8Slice, pgsql.VarBitToUint8Slice},
	{"VarBitArray:BoolSliceSlice", "VarBitArray", "BoolSliceSlice", pgsql.VarBitArrayFromBoolSliceSlice, pgsql.VarBitArrayToBoolSliceSlice},
	{"VarBitArray:Int64Slice", "VarBitArray", "Int64Slice", pgsql.VarBitArrayFromInt64Slice, pgsql.VarBitArrayToInt64Slice},
	{"VarBitArray:StringSlice", "VarBitArray", "StringSlice", pgsql.VarBitArrayFromStringSlice, pgsql.VarBitArrayToStringSlice},
	{"VarBitArray:Uint8SliceSlice", "VarBitArray", "Uint8SliceSlice", pgsql.VarBitArrayFromUint8SliceSlice, pgsql.VarBitArrayToUint8SliceSlice},
	{"VarCharArray:ByteSliceSlice", "VarCharArray", "ByteSliceSlice", pgsql.VarCharArrayFromByteSliceSlice, pgsql.VarCharArrayToByteSliceSlice},
	{"VarCharArray:StringSlice", "VarCharArray", "StringSlice", pgsql.VarCharArrayFromStringSlice, pgsql.VarCharArrayToStringSlice},
	{"XMLArray:ByteSliceSlice", "XMLArray", "ByteSliceSlice", pgsql.XMLArrayFromByteSliceSlice, pgsql.XMLArrayToByteSliceSlice},
}
