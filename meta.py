# Text of every property: properties.jsonl and MANIFEST.json are generated from this file and props.py by gen.py.
M = {}
def prop(id, title, statement, over, text, why, files, mech, observe=(), note=""):
    M[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe), note=note)

ANYVIEW = "Every view (invalid, empty, or valid with any size up to INT_MAX and any bytes), every C string or NULL, every int argument."
prop("C01", "View operations stay inside the memory they were given",
     "No strview operation reads or writes outside the memory of the views, C strings, arrays and destinations it was given, dereferences NULL, or overflows a signed integer. A view is never read past its size even when more memory, or no terminator, follows it.",
     ["inputs"], ANYVIEW, "Tests call each function on a few terminated literals, where reading one byte too far is harmless; the sanitizers are not part of the test build.",
     ["strview.c", "strview.h"], [("size checks before every access", "strview.c"), ("memcmp only after comparing sizes", "strview.c:strview_is_match_strview")])
prop("C02", "Every view handed back lies inside its source",
     "A view returned, left behind as the remainder, or stored in an array by a strview operation is either the invalid view (NULL, size 0) or lies entirely inside the source view; a view returned by a find operation has the size of the needle; cstr() views exactly the characters of its string and cstr(NULL) is invalid.",
     ["inputs"], ANYVIEW, "It has to hold for every index, size and content; tests look at a few printed results.",
     ["strview.c"], [("index clipping", "strview.c:strview_sub"), ("limits check", "strview.c:strview_split_left"), ("remainder computation", "strview.c:strview_split_first_delim")])
prop("C03", "Splitting loses and duplicates nothing",
     "After strview_split_first_delim or strview_split_last_delim the result, one removed delimiter character and the remainder together are exactly the source (or the whole source is returned and the remainder is invalid when no split is made). After strview_split_index, strview_split_left and strview_split_right, and strview_pop_first_char, result and remainder together are exactly the source.",
     ["inputs"], ANYVIEW + " Delimiters: any C string or NULL, quotes honoured or not; pos: any part of the source.", "Tests compare the pieces of a handful of strings.",
     ["strview.c"], [("removal of the split part from the source", "strview.c:strview_split_first_delim, strview_split_last_delim, strview_split_index, strview_split_left, strview_split_right, strview_pop_first_char")])
prop("C04", "A split uses the first (last) delimiter outside quotes",
     "strview_split_first_delim splits at the first, strview_split_last_delim at the last character of the source that is one of the delimiters and, when exclude_quotes is set, is not inside double quotes (counted from the end the search starts at). When there is no such character the whole source is returned and the source becomes invalid.",
     ["inputs"], "Every source and set of delimiters; exact choice of the delimiter for sources and sets of up to 3 characters (4 with quotes), absence of delimiters in the result and the removed character for sources of any length.", "Position of quotes and delimiters in arbitrary text; the tests have three sample strings.",
     ["strview.c"], [("quote state while scanning", "strview.c:strview_split_first_delim, strview_split_last_delim")])
prop("C05", "Operations that do not apply report it and leave the source alone",
     "Given a NULL or invalid source, an invalid needle, or a pos outside the source, an operation returns the invalid view (0 for strview_pop_first_char, false for strview_contains) and leaves the source unmodified; a pos at the limits of the source gives the documented empty-but-valid views, an empty view splits into itself, and no characters to trim or split by changes nothing. strview_swap exchanges two views and strview_is_valid tells valid from invalid, also for empty views.",
     ["inputs"], ANYVIEW + " Positions before, after and at both limits of a source inside larger text.", "The error paths depend on the relation of two arbitrary views; tests have a few of them.",
     ["strview.c", "strview.h"], [("validity checks", "strview.c"), ("location check", "strview.c:strview_split_left, strview_split_right")])
prop("C06", "Index arithmetic of strview_sub and strview_split_index",
     "For every pair of indexes strview_sub returns exactly the characters from begin to end (negative indexes counting from the end, both clipped to the view), or the invalid view if begin exceeds end or the range lies outside. strview_split_index splits off the first index (for a negative index the last -index) characters, at most all of them, also for INT_MIN and INT_MAX.",
     ["inputs"], "Every valid view size and every int index, including INT_MIN and INT_MAX.", "2^32 indexes times 2^31 sizes; tests use about ten.",
     ["strview.c"], [("index normalisation", "strview.c:strview_sub, strview_split_index")])
prop("C07", "strview_to_cstr writes a terminated prefix and nothing else",
     "strview_to_cstr stores the longest prefix of the view that fits together with its terminator, terminates it, changes no other byte of the destination, writes nothing to a destination of size 0 or NULL, and returns the destination; a view with negative size counts as empty.",
     ["inputs"], "Every view and every destination size.", "Tests use one buffer size.",
     ["strview.c"], [("size limit", "strview.c:strview_to_cstr")])
prop("C08", "Trimming removes exactly the leading / trailing run of the set",
     "strview_trim, strview_trim_start and strview_trim_end remove characters of the given set from both ends, the start, or the end of the view, stop at the first character that is not in the set, and keep a valid view valid.",
     ["inputs"], "Every source and set of up to 3 characters exactly; for sources of any length, a given set.", "Any byte may be in the set or in the source; tests trim a few punctuation characters.",
     ["strview.c"], [("trim loops", "strview.c:strview_trim_start_strview, strview_trim_end_strview")])
prop("C09", "Match, starts-with and compare agree with the contents",
     "strview_is_match is true exactly if both views are invalid, or both valid with equal size and bytes; strview_starts_with compares the leading bytes (the invalid view starts only the invalid view, the empty view starts every valid one); the sign of strview_compare is the lexicographic order of the bytes as unsigned characters, shorter first.",
     ["inputs"], "Every pair of views; byte-exact for sizes up to 3, size and validity rules for all sizes.", "The result depends on all bytes of both views; tests compare a few words.",
     ["strview.c"], [("comparison", "strview.c:strview_is_match_strview, strview_starts_with_strview, strview_compare")])
prop("C10", "find_first / find_last / contains find the right occurrence",
     "strview_find_first returns the leftmost and strview_find_last the rightmost occurrence of the needle, the invalid view if it does not occur or either view is invalid, and the empty needle is found at the start (end); strview_contains tells whether there is an occurrence.",
     ["inputs"], "Every haystack and needle of up to 3 characters (4 with a 2-character needle) exactly; one-character needles, empty, equal and longer needles for haystacks of any length.", "Overlapping and partial occurrences depend on the bytes; tests search a few words.",
     ["strview.c"], [("search loops", "strview.c:strview_find_first_strview, strview_find_last_strview, strview_contains")])
prop("C11", "strview_split_line understands every line ending",
     "strview_split_line returns the characters before the first CR or LF and removes them with their line ending, where CRLF and LFCR are one ending, also when the two characters arrive in two sources and the eol state is kept; without a line ending the result is invalid and source and state stay unmodified.",
     ["inputs", "histories"], "Every source of up to 3 characters with every eol state exactly; content and termination rules for sources of any length.", "Combinations of CR, LF, state and cut position; tests feed one mixed sample.",
     ["strview.c"], [("eol discriminator", "strview.c:strview_split_line")])
prop("C12", "The nocase operations ignore case and nothing else",
     "strview_is_match_nocase, strview_starts_with_nocase, strview_find_first_nocase, strview_find_last_nocase and strview_contains_nocase treat two characters as equal exactly if they are equal after toupper(), and otherwise give the results of the case sensitive operations, including the leftmost / rightmost rule and the treatment of invalid and empty views.",
     ["inputs"], "Every pair of views of up to 2 characters exactly, every byte against ten chosen characters, size and validity rules for all sizes.", "Which of 65536 pairs of characters are equal, at which position; tests compare a few words.",
     ["strview.c"], [("case-insensitive comparison", "strview.c:memcmp_nocase and its callers")])
prop("C13", "strview_split_all stores the pieces in order, and no more than fit",
     "strview_split_all stores the successive results of splitting the source by its first delimiter, at most as many as the array has elements, returns how many it stored, and writes no other element; the invalid view has no pieces and an undelimited one exactly itself.",
     ["inputs"], "Every source up to 3 characters, array sizes 0 to 4, quotes honoured or not; limits for sources of any length.", "Tests split one sample.",
     ["strview.c"], [("split loop", "strview.c:strview_split_all")])
prop("C14", "strview_dequote removes enclosing pairs of quotes only",
     "strview_dequote removes a leading and a trailing double (or single) quotation character together as long as both are the same quotation character as the outermost one, and returns everything else unmodified; a lone quotation character stays.",
     ["inputs"], "Every view of up to 4 characters exactly; unquoted, unbalanced and symmetric removal for views of any length.", "Nesting and lone quotes; tests have a few samples.",
     ["strview.c"], [("dequote loop", "strview.c:strview_dequote")])
# strbuf ------------------------------------------------------------------------------------------------------------
ANYBUF = "Every dynamic or fixed buffer (any capacity up to INT_MAX, any size up to the capacity, any content), every argument text (invalid, empty, from elsewhere, or any part of the buffer itself), every int argument."
BT = "Tests use short texts in small dynamic buffers; sizes near the capacity or INT_MAX, fixed buffers and texts from inside the buffer are hardly sampled."
prop("C20", "Buffer operations stay inside the memory they own",
     "No strbuf operation (append, prepend, insert, insert before/after, assign, cat/vcat, append_char, append_using, strip, printf and prnf families, view, shrink, grow) reads or writes outside the buffer, its allocations and its arguments, uses memory after releasing it, or overflows a signed integer, whatever the sizes.",
     ["inputs"], ANYBUF, BT + " Sanitizers are not part of the test build.",
     ["strbuf.c"], [("size checks before every memory move", "strbuf.c:insert_str_into_buf, buffer_vcat"), ("overflow checks", "strbuf.c:add_will_overflow_int")])
prop("C21", "Every operation leaves a legal, terminated buffer and returns its content",
     "After every strbuf operation 0 <= size <= capacity, the character after the content is the terminator, the capacity does not exceed the storage, and the returned view is exactly the buffer's content (address and size); a failed strbuf_append_using returns the invalid view.",
     ["inputs"], ANYBUF + " Any number of views for vcat, any text for the formatters.", "The invariant has to survive any sequence of operations; tests check contents at a few points.",
     ["strbuf.c"], [("termination and size update", "strbuf.c"), ("view of the buffer", "strbuf.c:strview_of_buf")])
prop("C22", "A fixed buffer stays where it is and never allocates",
     "A buffer created with strbuf_create_fixed keeps its address and capacity under every operation, no allocator is ever called for it, and strbuf_grow on it returns the invalid view (shrink, destroy and growing leave it as it is).",
     ["inputs"], ANYBUF + " (fixed buffers)", BT,
     ["strbuf.c"], [("dynamic / fixed distinction", "strbuf.c:buf_is_dynamic, change_buf_capacity")])
prop("C23", "Dynamic buffers use their allocator correctly: no leak, no double free",
     "Every allocator call of a dynamic buffer goes to the buffer's own allocator instance, passes only a live block obtained from it, and asks for the buffer structure, the capacity and the terminator without wrapping. After every operation exactly one block, of the size the capacity calls for, is allocated and the buffer keeps its allocator; strbuf_destroy and strbuf_to_cstr leave none, or only the returned string.",
     ["inputs", "histories"], ANYBUF + " (dynamic buffers; the allocator may move the block on every call)", "Leaks and stale blocks of custom allocators do not change what the tests print.",
     ["strbuf.c", "strbuf.h"], [("reallocation", "strbuf.c:change_buf_capacity"), ("release", "strbuf.c:strbuf_destroy, strbuf_to_cstr"), ("temporary buffer of cat", "strbuf.c:buffer_vcat")])
prop("C24", "Insert, append and prepend put the text exactly where it belongs",
     "Where the result fits, append, prepend, insert_at_index, insert_before, insert_after (strview and cstr forms) and append_char leave the old content up to the place, then the text as it was before the call - also if it is part of the buffer itself, on either or both sides of the place - then the rest of the old content. Indexes count from the end if negative and are clipped; a place outside the buffer, nothing to insert, shrink, grow and view leave the content as it is.",
     ["inputs"], ANYBUF, BT + " Overlapping and relocated sources depend on position and sizes.",
     ["strbuf.c"], [("insertion including self-reference", "strbuf.c:insert_str_into_buf"), ("index handling", "strbuf.c:strbuf_insert_at_index_strview"), ("location of a view in the buffer", "strbuf.c:buf_contains_str")])
prop("C25", "assign and cat leave exactly the given texts, in order",
     "Where the result fits, strbuf_assign leaves the given text and strbuf_cat / strbuf_vcat leave the given texts one after the other as they were before the call, also when they are parts of the buffer itself (assign: any buffer; cat: dynamic buffers; in a fixed buffer a non-empty text from the buffer itself empties it). Assigning nothing or an empty list empties the buffer.",
     ["inputs"], ANYBUF + " Up to 3 views exactly.", BT,
     ["strbuf.c"], [("concatenation via a second buffer", "strbuf.c:buffer_vcat"), ("assignment", "strbuf.c:assign_str_to_buf")])
prop("C26", "Capacity grows in steps, only when needed, and shrink makes it exact",
     "An operation that adds text to a dynamic buffer never reduces its capacity, does not call the allocator when the result fits, and otherwise grows to the next multiple of STRBUF_CAPACITY_GROW_STEP (INT_MAX if that would overflow). strbuf_shrink leaves a capacity equal to the size, strbuf_grow at least the capacity asked for and never less than before; neither changes the size.",
     ["inputs"], ANYBUF + " (dynamic buffers)", "Capacity is hardly visible in the tests, and rounding at the top of the range never is.",
     ["strbuf.c"], [("rounding", "strbuf.c:round_up_capacity"), ("shrink and grow", "strbuf.c:strbuf_shrink, strbuf_grow")])
prop("C27", "When the result does not fit, the buffer is emptied",
     "When the result of append, prepend, insert (at index, before, after), append_char, assign or cat exceeds the capacity of a fixed buffer, or INT_MAX for a dynamic one, the buffer is left empty, terminated and usable, and the empty view is returned; nothing partial is stored.",
     ["inputs"], ANYBUF, "Sizes near INT_MAX cannot be allocated in a unit test, and one-off capacities are not sampled.",
     ["strbuf.c"], [("overflow and capacity checks", "strbuf.c:insert_str_into_buf, buffer_vcat, append_char_to_buf, assign_str_to_buf, add_will_overflow_int")])
prop("C28", "The printf and prnf families store exactly the formatted text",
     "strbuf_printf / vprintf / prnf / vprnf leave exactly the text the formatter produces, the append_ forms leave the old content followed by it; text that does not fit (fixed capacity, INT_MAX), or a formatting error, leaves the buffer empty. The returned view is the content.",
     ["inputs"], ANYBUF + " Any length of formatted text, any result of vsnprintf including errors.", "Formatter errors and texts of exactly the capacity are not tested.",
     ["strbuf.c"], [("two-pass formatting", "strbuf.c:strbuf_vprintf, strbuf_append_vprintf"), ("character handler", "strbuf.c:char_handler_for_prnf, append_char_to_buf")])
prop("C29", "strbuf_append_using takes exactly what was fetched",
     "strbuf_append_using calls the fetch function exactly once with the end of the content, the free space and the caller's variables, never changes the capacity, appends exactly as many characters as it reports and keeps the old content; a negative report, or one larger than the space, empties the buffer and returns the invalid view.",
     ["inputs"], "Every buffer, every report of the fetch function, every byte fetched.", "A misbehaving fetch function is not part of the tests.",
     ["strbuf.c"], [("fetch and check", "strbuf.c:strbuf_append_using")])
prop("C30", "Creating a buffer and giving it up",
     "strbuf_create_empty and strbuf_create_init return a legal buffer with at least the capacity asked for / exactly the given content and the given (or, for NULL, default) allocator, and NULL for a capacity over INT_MAX or without an allocator; strbuf_create_fixed returns an empty buffer of all the given storage, or NULL if it is missing, too small or not aligned to a pointer. strbuf_to_cstr returns exactly the content, terminated, in a block of its own (in place for a fixed buffer) and clears the pointer; strbuf_destroy releases the memory and clears the pointer.",
     ["inputs"], "Every capacity, initial content, storage size and alignment.", BT,
     ["strbuf.c"], [("creation", "strbuf.c:strbuf_create_empty, strbuf_create_init, strbuf_create_fixed"), ("conversion", "strbuf.c:strbuf_to_cstr")])
prop("C31", "Without a buffer every operation returns the invalid view",
     "Every strbuf operation given a NULL buffer pointer, or a pointer to a NULL buffer, returns the invalid view (strbuf_to_cstr: NULL), and does not call an allocator, fetch function or formatter on it.",
     ["inputs"], "Every operation with every kind of argument.", "Tests do not pass NULL to each of 30 functions.",
     ["strbuf.c"], [("NULL checks", "strbuf.c")])
prop("C32", "strbuf_strip deletes exactly the characters of the set",
     "strbuf_strip_strview and strbuf_strip_cstr delete every character of the set from the buffer and keep all other characters in order; an empty or invalid set deletes nothing.",
     ["inputs"], "Every content and set of up to 4 characters exactly; legality of the buffer and the empty set for any size.", "Runs at the start, end and in the middle; tests strip one text.",
     ["strbuf.c"], [("strip", "strbuf.c:strbuf_strip_strview")])
# strnum ------------------------------------------------------------------------------------------------------------
ANYNUM = "Every text (invalid, empty or valid view), every combination of options, every destination type."
NT = "Tests convert a few dozen literals, mostly with default options."
prop("C40", "Number conversion reads only the text it was given",
     "No strnum function reads outside the characters of its source view, dereferences a NULL destination or source, uses an uninitialised value, overflows a signed integer, or passes a value to the ctype functions that they are not defined for; whatever bytes the text holds and whatever the options.",
     ["inputs"], ANYNUM + " Integers: texts of any length. Floating point: every text of up to 5 characters, and long digit strings (C47).", NT + " Bytes over 127 and views that end inside a number are not among them.",
     ["strnum.c"], [("size checks while consuming digits, signs and prefixes", "strnum.c:consume_digits, consume_sign, consume_base_prefix, split_digits")])
prop("C41", "A conversion delivers completely or leaves everything alone",
     "Every strnum_consume_ function (strnum_value) returns 0, EINVAL or ERANGE. On 0 the value is stored and the source has lost a non-empty part at its start; on an error neither the source nor the destination is modified. A NULL, invalid or empty source is EINVAL.",
     ["inputs"], ANYNUM + " Integers: texts of any length; floating point: every text of up to 3 characters.", NT + " They look at the result, not at what failed conversions leave behind.",
     ["strnum.c", "strnum.h"], [("results are stored after the last check", "strnum.c:consume_signed, consume_unsigned, strnum_consume_float, strnum_consume_double, strnum_consume_ldouble")])
prop("C42", "Integers: the right value up to the limits of the type, ERANGE beyond",
     "For every integer type, decimal, binary and hexadecimal digits (with or without base prefix, sign or leading zeros) give exactly the number they spell if the type can hold it; otherwise the conversion returns ERANGE. The smallest and largest value of each type convert, their neighbours outside do not.",
     ["inputs"], "Every decimal number of up to 21 digits, every hexadecimal number of up to 17 digits (groups of 0-9, a-f, A-F), binary numbers of up to 65 digits with two free digits; both signs, all types, with anything or nothing after the digits.", "Values at the limits of 10 types times 3 bases times 2 signs; tests have some of the decimal limits.",
     ["strnum.c"], [("accumulation and overflow check", "strnum.c:consume_decimal_digits, consume_hex_digits, consume_bin_digits"), ("limits of the type", "strnum.c:consume_signed, consume_unsigned")])
prop("C43", "Integers: what counts as a number",
     "Leading spaces (unless STRNUM_NOSPACE), one sign for signed types (unless STRNUM_NOSIGN), a base prefix 0b 0B 0x 0X (unless STRNUM_NOBX; only that of the base asked for with STRNUM_BASE_BIN / STRNUM_BASE_HEX) and the longest run of digits of the base are consumed, nothing else; anything without a digit in that place is EINVAL. Only 0-9, a-f and A-F are digits.",
     ["inputs"], "Every text of up to 4 characters with every combination of options, all integer types. A prefix without digits after it, and white space other than the space, are left open.", NT,
     ["strnum.c"], [("prefix", "strnum.c:consume_base_prefix"), ("digits", "strnum.c:consume_digits"), ("options", "strnum.c:consume_signed, consume_unsigned")])
prop("C45", "The value-returning functions: the number or the default",
     "strnum_i8 ... strnum_u64, strnum_char ... strnum_ullong and strnum_float / double / ldouble return the value of the number at the start of the text, or the given default value if there is none or the type cannot hold it; each honours exactly the limits of its own type and the options.",
     ["inputs"], "Every text of up to 3 characters with every combination of options; every decimal number of up to 21 digits.", "21 functions; tests call some of them.",
     ["strnum.c", "strnum.h"], [("fixed-width names mapped to the basic types", "strnum.c, strnum.h:strnum_value")])
prop("C46", "Floating point: what counts as a number",
     "Leading spaces and one sign (unless disabled), then inf, infinity or nan in any case - infinity is consumed completely and gives infinity of the given sign -, or digits with at most one point, at least one digit on either side, and an optional exponent e/E, sign, digits (unless STRNUM_NOEXP; an e without digits after it is not consumed). Exactly that is consumed; everything else is EINVAL, and a number gives neither infinity nor nan but ERANGE when it is too large.",
     ["inputs"], "Every text of up to 4 characters with every combination of options, and the words in every mixture of cases with everything around them; float, double and long double.", NT,
     ["strnum.c"], [("components", "strnum.c:process_float_components, consume_exponent, split_digits"), ("words", "strnum.c:consume_float_special")])
prop("C47", "Floating point: the value the text spells",
     "The value is the decimal number the text spells - all integral digits, all fractional digits, sign and exponent, however many digits there are - up to the rounding of arithmetic in the destination's own type. A number too large for the type is ERANGE with nothing consumed, zero with any exponent is zero, and a number too small is accepted.",
     ["inputs"], "Every digit in texts of up to 25 integral and 22 fractional digits (11 combinations of lengths), exponents none, e5, E-7, e+12 and every one-digit one; every exponent of 2 to 4 digits for the overflow rules. The values are followed as exact decimal sums, so how far rounding moves the last bits is not decided.", "The number of digits decides which chunks are converted separately; tests have a few long numbers.",
     ["strnum.c"], [("conversion in chunks", "strnum.c:make_float_type, consume_decimal_digits"), ("scaling by powers of ten", "strnum.c:make_float_type")])
# accessories -------------------------------------------------------------------------------------------------------
prop("C50", "read() and write() accessories: free space, content and results",
     "strbuf_append_read calls read() exactly once with exactly the free space behind the content (also when there is none), appends what it delivered and nothing else, keeps the terminator, never moves or grows the buffer, and returns the result of read(). strbuf_write and strview_write call write() once with exactly the content (also when it is empty), remove exactly the bytes written from its start, leave everything as it was when nothing was written or it failed, and return the result of write(); an invalid view, and no buffer or view at all, call nothing and return 0.",
     ["inputs", "fault_sequences"], "Every buffer size, capacity and content, every view, every result read() and write() may give: errors, nothing, any part, all.", "Short reads and writes depend on the operating system; the test suite does not build the accessories.",
     ["accessories/strbuf_io.c", "accessories/strview_io.c"], [("fill the free space", "strbuf_io.c:strbuf_append_read"), ("remove what was written", "strbuf_io.c:strbuf_write, strview_io.c:strview_write")])
prop("C51", "The block cipher is AES",
     "aes256_init, aes192_init and aes128_init make the round keys of FIPS-197; aes256_enc and aes256_dec transform a block as the cipher and inverse cipher of FIPS-197 do, in place and touching nothing else; the S-boxes are the standard's and inverse to each other, gf256mul is the product in GF(2^8) and memxor the bytewise exclusive or.",
     ["inputs", "configurations"], "Every key, every block, all bytes unknown; on a little-endian (x86-64) and a big-endian (s390x) target.", "2^384 inputs; there is not one test of the cipher, and one wrong entry of a table is seen only when it is used.",
     ["accessories/strbuf_crypt/aes/aes_keyschedule.c", "accessories/strbuf_crypt/aes/aes_enc.c", "accessories/strbuf_crypt/aes/aes_dec.c", "accessories/strbuf_crypt/aes/aes_sbox.c", "accessories/strbuf_crypt/aes/gf256mul.c"], [("key schedule", "aes_keyschedule.c"), ("rounds", "aes_enc.c, aes_dec.c")])
prop("C52", "Encryption is AES-256 CBC with PKCS#7 padding, decryption its inverse",
     "strbuf_encrypt replaces the content by its AES-256 CBC encryption with PKCS#7 padding under the key and initialization vector given, strbuf_decrypt replaces such content by the text encrypted, and decrypting what was encrypted gives back the text - in fixed buffers with exactly enough room, in dynamic buffers with and without spare capacity. Key and initialization vector are not modified.",
     ["inputs", "configurations"], "On a little-endian and a big-endian target: every key, vector and content, for contents of 0, 1, 2, 7, 14 to 17, 30 to 33 and 47 to 49 bytes (up to four blocks, every case of padding at block limits).", "Chaining and padding depend on the size modulo 16 and on all bytes; no test covers them.",
     ["accessories/strbuf_crypt/strbuf_crypt.c"], [("padding", "strbuf_crypt.c:strbuf_encrypt"), ("chaining", "strbuf_crypt.c"), ("removal of the padding", "strbuf_crypt.c:strbuf_decrypt")])
prop("C53", "Encryption of any size keeps memory, buffer and allocator in order",
     "For every size and capacity strbuf_encrypt makes the size the next larger multiple of 16, or returns the invalid view and leaves a buffer alone that cannot hold it (fixed and too small, or INT_MAX reached). strbuf_decrypt fails with the invalid view and an empty buffer if the content is no positive number of whole blocks or its padding is not valid, and otherwise removes 1 to 16 bytes. Both stay inside the buffer, the 32 byte key and the 16 byte vector, return the view of the content, keep it terminated, never move a fixed buffer, and give the memory of the cipher context back to the allocator of the buffer, also on failure.",
     ["inputs", "fault_sequences"], "Every size and capacity up to INT_MAX, every content (so every, also malformed, padding), fixed and dynamic buffers. The cipher is replaced by what C51 proves about it.", "Ciphertext comes from outside: malformed padding and odd sizes are what an attacker sends, and no test sends any.",
     ["accessories/strbuf_crypt/strbuf_crypt.c"], [("size and padding checks", "strbuf_crypt.c:strbuf_decrypt"), ("growth by the padding", "strbuf_crypt.c:strbuf_encrypt"), ("context from the buffer's allocator", "strbuf_crypt.c")])
prop("C54", "Packed integers have the byte order asked for on any machine",
     "STRBUF_PACK_LE/BE append the bytes of an integer in little/big endian order and nothing else and do not modify it, STRVIEW_UNPACK_LE/BE read it back from the leading bytes of a view, aligned or not, and remove exactly those; xendian_pack/unpack convert between the machine's order and the one named and undo each other - for the eight integer types of stdint.h, whatever the variables are called.",
     ["inputs", "configurations"], "Every value of all eight types, on a little-endian (x86-64) and a big-endian (s390x) target; contents before and behind of several sizes.", "Tests run on one machine; half of the code is compiled only on the other byte order.",
     ["accessories/xendian.h", "accessories/strbuf_pack.h", "accessories/strview_unpack.h"], [("swap functions", "xendian.h:xendian_swap16, xendian_swap32, xendian_swap64"), ("selection by byte order", "xendian.h:xendian_pack_LE, xendian_pack_BE"), ("packing", "strbuf_pack.h, strview_unpack.h")])
# configurations ----------------------------------------------------------------------------------------------------
prop("C55", "Any capacity step keeps the capacity rules and the legal state",
     "With STRBUF_CAPACITY_GROW_STEP set to another value than 16, also one that is no power of two, growing still gives the next multiple of the step that is large enough (INT_MAX if there is none), nothing that fits calls the allocator, and every operation leaves a legal buffer: 0 <= size <= capacity <= storage, terminated.",
     ["inputs", "configurations"], "Steps 1, 7, 10 and 1000000; every buffer, text and index.", "The test suite is built with one step.",
     ["strbuf.c", "strbuf.h"], [("rounding", "strbuf.c:round_up_capacity")])
prop("C56", "The default allocator uses the C heap correctly",
     "With STRBUF_DEFAULT_ALLOCATOR_STDLIB buffers created without an allocator live in one block of the C heap that is resized and released through realloc() and free() as the C standard demands: only live blocks are passed, never size 0 to realloc(), nothing is released twice or lost, destroying releases the buffer, and the assertions of STRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB never fail while memory is available.",
     ["inputs", "histories"], "Every size; creation followed by growing, shrinking, appending, inserting, concatenating and destroying; the allocator called directly.", "What realloc(p, 0) does differs between C libraries, and the leak of a block is not seen by a test that only looks at content.",
     ["strbuf.c"], [("default allocator", "strbuf.c:allocfunc_stdlib")])
prop("C57", "Every documented configuration builds, and brings in no more than asked for",
     "The sources compile in every combination of STRBUF_PROVIDE_PRINTF, STRBUF_PROVIDE_PRNF, STRBUF_DEFAULT_ALLOCATOR_STDLIB, STRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB, STRBUF_CAPACITY_GROW_STEP and STRNUM_NOFLOAT; every function a header declares is then defined (formatting ones if provided); every header can be included alone, twice, and brings what its macros need. No heap function is referenced unless the default allocator is asked for, no printf or prnf function unless provided, no floating point with STRNUM_NOFLOAT; strbuf_default_allocator can be replaced by the application unless it is the C library's. The generic macros accept the documented types, with the documented result type, and refuse others; strnum_value() selects the function of its destination; strbuf_cat() counts 1 to 127 views; formatting functions have their arguments checked.",
     ["configurations", "programs"], "All 12 combinations of buffer options, three steps, both number configurations; gcc and clang; gnu99, gnu11, gnu17; about 200 accepted and refused programs.", "The test suite is one configuration, and no test can contain a program that must not compile.",
     ["strbuf.h", "strbuf.c", "strnum.h", "strnum.c", "strview.h", "accessories/xendian.h", "accessories/strbuf_pack.h", "accessories/strview_unpack.h"], [("conditional compilation", "strbuf.c, strnum.c, strnum.h"), ("weak default allocator", "strbuf.c:strbuf_default_allocator"), ("generic selections", "strview.h, strbuf.h, strnum.h, xendian.h"), ("argument counting", "strbuf.h:PP_NARG")])
prop("C58", "The library keeps no state of its own",
     "No operation writes to an object with static storage duration or calls a C library function that keeps state shared by its callers. strbuf_default_allocator, which is the application's to set, is only read. Operations on different buffers and views therefore cannot affect each other - from different threads, from signal handlers, or from within an allocator or a content-fetching callback - and a call's result depends on its arguments alone.",
     ["schedules", "histories"], "Every function of strview, strbuf, strnum and the accessories including the cipher.", "A static scratch buffer passes every single-threaded test.",
     ["strbuf.c", "strview.c", "strnum.c", "accessories/strbuf_crypt/strbuf_crypt.c", "accessories/strbuf_crypt/aes/aes_keyschedule.c"], [("locals and the buffer itself as the only working memory", "strbuf.c, strview.c, strnum.c"), ("cipher context on the stack or from the allocator", "strbuf_crypt.c")])
prop("C59", "Results do not depend on whether plain char is signed",
     "Where char is unsigned (ARM, POWER, -funsigned-char) as well as where it is signed, matching, comparing, case-insensitive matching, trimming, splitting, finding, line splitting, dequoting, concatenating, fetching through a callback and stripping give the results specified for them, for bytes over 127 as for others.",
     ["configurations", "inputs"], "As for C04, C08 to C14, C25, C29 and C32, with char unsigned and with char signed.", "Tests run where char is signed.",
     ["strview.c", "strbuf.c"], [("character comparisons", "strview.c:memcmp_nocase, strview_compare; strbuf.c:view_contains_char")])
# machines of 32 bits -----------------------------------------------------------------------------------------------
prop("C60", "View operations keep their guarantees on 32-bit machines",
     "Where int, long, size_t and pointers have 32 bits, the view operations stay inside the memory they were given, return views inside their source, split without losing or duplicating anything and at the right delimiter, report what does not apply, and trim, match, compare, find, split lines and dequote as they do on 64-bit machines.",
     ["configurations", "inputs"], "As for C01 to C14, on an ILP32 target (i386); objects lie below 2 GB.", "The tests are built for one machine; the library is meant for microcontrollers, whose pointers and sizes are narrower.",
     ["strview.c"], [("pointer differences and sizes", "strview.c:split_index, find_first, strview_to_cstr")])
prop("C61", "Buffers keep their guarantees on 32-bit machines",
     "Where int, long, size_t and pointers have 32 bits, buffer operations stay inside the memory they own, leave legal terminated buffers, use fixed storage and allocators correctly (storage aligned for the machine's own pointers is accepted), store exactly the right text, keep the capacity rules up to INT_MAX, empty the buffer when the result does not fit, and allocate sizes that have not wrapped around.",
     ["configurations", "inputs"], "As for C20 to C32 and C56, on an ILP32 target (i386); objects lie below 2 GB.", "INT_MAX + sizeof(strbuf_t) is close to the limit of a 32-bit size_t; alignment and structure layout differ; no test runs there.",
     ["strbuf.c"], [("allocation sizes", "strbuf.c:create_buf, change_buf_capacity, strbuf_create_fixed"), ("alignment", "strbuf.c:strbuf_create_fixed")])
prop("C62", "Number conversion keeps its guarantees on 32-bit machines",
     "Where long has 32 bits like int (and long long 64), conversion of integers and floating-point numbers reads only its text, accepts the same texts, delivers exactly the right value up to the limits of each type as it is there (long up to 2147483647) and ERANGE beyond, and leaves source and destination alone on failure.",
     ["configurations", "inputs"], "As for C40 to C47, on an ILP32 target (i386).", "The stages of the decimal conversion (int, long, long long) have other limits there; no test runs there.",
     ["strnum.c"], [("staged conversion", "strnum.c:consume_decimal_digits"), ("limits of the types", "strnum.c:strnum_consume_long, strnum_consume_ulong")])
prop("C63", "The accessories keep their guarantees on 32-bit machines",
     "Where int, long, size_t and pointers have 32 bits, reading, writing, packing, unpacking, the AES cipher, its CBC mode with padding, and encryption of buffers of any size do what C50 to C54 say.",
     ["configurations", "inputs"], "As for C50 to C54, on an ILP32 target (i386).", "No test builds the accessories at all.",
     ["accessories/strbuf_io.c", "accessories/strview_io.c", "accessories/strbuf_crypt/strbuf_crypt.c", "accessories/strbuf_pack.h", "accessories/strview_unpack.h", "accessories/xendian.h"], [("as for C50 to C54", "accessories/")])
# not decided -------------------------------------------------------------------------------------------------------
prop("C90", "Every operation terminates, whatever the sizes",
     "Each function of strview, strbuf, strnum and the accessories returns after a number of steps that is bounded by a function of the sizes of its arguments (provided the application's allocator and callbacks return).",
     ["inputs"], "Every argument of every size.", "A test that terminates says nothing about other inputs.",
     ["strview.c", "strbuf.c", "strnum.c"], [("loops", "strview.c, strbuf.c, strnum.c")])
prop("C91", "Floating-point results are as accurate as the type allows",
     "The value delivered by strnum for a floating-point number differs from the exact value of the text by no more than a few units in the last place of the destination type.",
     ["inputs"], "Every number of every length.", "Rounding errors depend on every digit and on the exponent.",
     ["strnum.c"], [("scaling by powers of ten", "strnum.c:make_float, make_double, make_ldouble")])
NA = {
 "C90": "Termination for sizes without a bound needs ranking functions, which the analyser does not look for: its loop invariants over-approximate what holds if a loop is left. (Where an entry is analysed for sizes up to a bound, its loops are followed to their end, so for those sizes they do terminate.)",
 "C91": "The error of a chain of floating-point multiplications depends on run-time values: the number of scaling steps and where each rounds. A sound static bound over all exponents is far larger than the few units this property asks for. What is decided instead, under C47, is that the value is the exact decimal value of the text up to the rounding of the machine's operations.",
}
