# Contracts of the functions below the parsers, over an abstract reader:
# S the bytes, position() the current bit, remaining_bits() to the end,
# peek(n) the next n bits.

# codeNum of clause 9.1; rejected codes leave the position alone
@impl("BitBuffer::ReadExponentialGolomb(unsigned int&)")
def ue():
    start = position()
    z = 0
    while remaining_bits() >= 1 and peek(1) == 0:
        z = z + 1
        skip_bits(1)
    ok = 0
    val = 0
    if z <= 31 and remaining_bits() >= z + 1:
        ok = 1
        val = peek(z + 1) - 1
        skip_bits(z + 1)
    else:
        seek(start)
    return ok

# Table 9-3
@impl("BitBuffer::ReadSignedExponentialGolomb(int&)")
def se():
    ok = b2i(ue_ok())
    val = 0
    if ok == 1:
        k = ue_val()
        if (k & 1) == 0:
            val = 0 - (k >> 1)
        else:
            val = (k + 1) >> 1
        skip_bits(ue_len())
    return ok

@impl("byte_aligned(BitBuffer*)")
def aligned():
    return b2i((position() & 7) == 0)

@impl("get_current_offset(BitBuffer*)")
def current_offset():
    return (position() + 7) >> 3

# no data; more than a byte left; or something else than the stop bit pattern
@impl("more_rbsp_data(BitBuffer*)")
def more_data():
    if remaining_bits() == 0:
        return 0
    if remaining_bits() > 8:
        return 1
    return b2i(peek(remaining_bits()) != (1 << (remaining_bits() - 1)))

# a one bit, then zero bits up to the byte boundary
@each_bit_offset
@impl("rbsp_trailing_bits(BitBuffer*)")
def trailing():
    if remaining_bits() == 0:
        return 0
    x = peek(1)
    skip_bits(1)
    if x != 1:
        return 0
    while (position() & 7) != 0:
        if remaining_bits() == 0:
            return 0
        x = peek(1)
        skip_bits(1)
        if x != 0:
            return 0
    return 1

# clause 7.3.1: 0x000003 loses its third byte
@impl("UnescapeRbsp(unsigned char const*, unsigned long)", "std::vector<uint8_t>")
def unescape_rbsp():
    i = 0
    while i < length:
        if length - i >= 3 and byte(data, i) == 0 and byte(data, i + 1) == 0 and byte(data, i + 2) == 3:
            append(out, byte(data, i))
            append(out, byte(data, i + 1))
            i = i + 3
        else:
            append(out, byte(data, i))
            i = i + 1

# start codes: next_sc(x) is the first i >= x with 00 00 01 at i, i + 3 < length, or end if there is none
@nalus
@impl("H264BitstreamParser::FindNaluIndices(unsigned char const*, unsigned long)")
def find_nalus():
    if length < 3:
        return 0
    end = length - 3
    g = next_sc(0)
    while g < end:
        s = g
        if g > 0 and byte(data, g - 1) == 0:
            s = g - 1
        if len(starts) > 0:
            sizes[len(sizes) - 1] = s - last(payloads)
        append(starts, s)
        append(payloads, g + 3)
        append(sizes, 0)
        g = next_sc(g + 3)
    if len(starts) > 0:
        sizes[len(sizes) - 1] = length - last(payloads)
    return 0

# 4-byte big-endian sizes; stops at the first size or unit that does not fit
@nalus
@impl("H264BitstreamParser::FindNaluIndicesExplicitFraming(unsigned char const*, unsigned long)")
def find_nalus_explicit():
    i = 0
    while i < length:
        if i + 4 > length:
            return 0
        n = (byte(data, i) << 24) | (byte(data, i + 1) << 16) | (byte(data, i + 2) << 8) | byte(data, i + 3)
        if n > length - i - 4:
            return 0
        append(starts, i)
        append(payloads, i + 4)
        append(sizes, n)
        i = i + 4 + n
    return 0
