package org.msgpack.core;

import org.msgpack.value.ValueType;

public enum MessageFormat {
    POSFIXINT(ValueType.INTEGER), FIXMAP(ValueType.MAP), FIXARRAY(ValueType.ARRAY), FIXSTR(ValueType.STRING), NIL(ValueType.NIL), NEVER_USED(null),
    BOOLEAN(ValueType.BOOLEAN), BIN8(ValueType.BINARY), BIN16(ValueType.BINARY), BIN32(ValueType.BINARY), EXT8(ValueType.EXTENSION), EXT16(ValueType.EXTENSION),
    EXT32(ValueType.EXTENSION), FLOAT32(ValueType.FLOAT), FLOAT64(ValueType.FLOAT), UINT8(ValueType.INTEGER), UINT16(ValueType.INTEGER), UINT32(ValueType.INTEGER),
    UINT64(ValueType.INTEGER), INT8(ValueType.INTEGER), INT16(ValueType.INTEGER), INT32(ValueType.INTEGER), INT64(ValueType.INTEGER), FIXEXT1(ValueType.EXTENSION),
    FIXEXT2(ValueType.EXTENSION), FIXEXT4(ValueType.EXTENSION), FIXEXT8(ValueType.EXTENSION), FIXEXT16(ValueType.EXTENSION), STR8(ValueType.STRING),
    STR16(ValueType.STRING), STR32(ValueType.STRING), ARRAY16(ValueType.ARRAY), ARRAY32(ValueType.ARRAY), MAP16(ValueType.MAP), MAP32(ValueType.MAP),
    NEGFIXINT(ValueType.INTEGER);

    private final ValueType valueType;

    MessageFormat(ValueType t) { valueType = t; }

    public ValueType getValueType() {
        if (this == NEVER_USED) throw new MessageNeverUsedFormatException("Cannot convert NEVER_USED to ValueType");
        return valueType;
    }

    public static MessageFormat valueOf(byte b) {
        int x = b & 0xff;
        if (x < 0x80) return POSFIXINT;
        if (x < 0x90) return FIXMAP;
        if (x < 0xa0) return FIXARRAY;
        if (x < 0xc0) return FIXSTR;
        if (x >= 0xe0) return NEGFIXINT;
        switch (x) {
            case 0xc0: return NIL;
            case 0xc1: return NEVER_USED;
            case 0xc2: case 0xc3: return BOOLEAN;
            case 0xc4: return BIN8;
            case 0xc5: return BIN16;
            case 0xc6: return BIN32;
            case 0xc7: return EXT8;
            case 0xc8: return EXT16;
            case 0xc9: return EXT32;
            case 0xca: return FLOAT32;
            case 0xcb: return FLOAT64;
            case 0xcc: return UINT8;
            case 0xcd: return UINT16;
            case 0xce: return UINT32;
            case 0xcf: return UINT64;
            case 0xd0: return INT8;
            case 0xd1: return INT16;
            case 0xd2: return INT32;
            case 0xd3: return INT64;
            case 0xd4: return FIXEXT1;
            case 0xd5: return FIXEXT2;
            case 0xd6: return FIXEXT4;
            case 0xd7: return FIXEXT8;
            case 0xd8: return FIXEXT16;
            case 0xd9: return STR8;
            case 0xda: return STR16;
            case 0xdb: return STR32;
            case 0xdc: return ARRAY16;
            case 0xdd: return ARRAY32;
            case 0xde: return MAP16;
            default: return MAP32;
        }
    }
}
