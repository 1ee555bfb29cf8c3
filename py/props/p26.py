"""Tokenizers of the C++ engine."""
from props.p21 import CORE
T = "mllm/preprocessor/tokenizers/"
SRC = [T + "AutoTokenizer.cpp", T + "BPE.cpp", T + "BPEUTF8.cpp", T + "Unicode.cpp"]
UNI = [T + "llama_cpp_unicode/unicode.cpp", T + "llama_cpp_unicode/unicode-data.cpp"]
FS = dict(src="tok.cpp", symflags=["-I@stubs_fs"], symbolic=["cpp:h/fs_stub.cpp", "cpp:h/locale_stub.cpp"])
TEXT = "letters, digits, quotes, punctuation, ASCII and ideographic space, newlines, CJK, accents and emoji"
CPP = [
    dict(name="split", sources=SRC, **FS, quick=[dict(MODE=0, NSP=2, SPLEN=3, TLEN=4, NA=2), dict(MODE=0, NSP=3, SPLENS='2,1,3', TLEN=2, NA=2)],
         thorough=[dict(MODE=0, NSP=2, SPLEN=3, TLEN=6, NA=2), dict(MODE=0, NSP=3, SPLEN=2, TLEN=4, NA=2), dict(MODE=0, NSP=2, SPLEN=2, TLEN=4, NA=3), dict(MODE=0, NSP=3, SPLENS='2,1,3', TLEN=4, NA=2)],
         reach=["split"], bounds="up to NSP special tokens of up to SPLEN characters, texts of up to TLEN, over an alphabet of NA (ASCII and multi-byte)"),
    dict(name="bpe", sources=SRC, **FS, quick=[dict(MODE=1, NM=2, WLEN=4, NA=2)],
         thorough=[dict(MODE=1, NM=2, WLEN=6, NA=2), dict(MODE=1, NM=3, WLEN=5, NA=2), dict(MODE=1, NM=2, WLEN=4, NA=3)],
         reach=["merged"], bounds="every sequence of up to NM merges, words of up to WLEN characters over an alphabet of NA"),
    dict(name="utf8", sources=SRC, **FS, quick=[dict(MODE=2)], reach=["utf8", "bytes", "broken"],
         bounds="up to 3 arbitrary code points, up to 3 arbitrary bytes, all 256 byte symbols"),
    dict(name="pattern", sources=SRC, **FS, quick=[dict(MODE=3, LEN=3, NABC=11, MODEL=-1), dict(MODE=3, LEN=2, NABC=16, MODEL=0)],
         thorough=[dict(MODE=3, LEN=4, NABC=8, MODEL=-1), dict(MODE=3, LEN=5, NABC=8, MODEL=0), dict(MODE=3, LEN=3, NABC=16, MODEL=0)],
         reach=["pattern"], bounds="texts of up to LEN characters over the first NABC of " + TEXT),
    dict(name="regex", sources=SRC + UNI, **FS, quick=[dict(MODE=5, LEN=2, NABC=9)],
         thorough=[dict(MODE=5, LEN=3, NABC=16), dict(MODE=5, LEN=4, NABC=9)],
         reach=["pattern"], bounds="GPT-2 and Llama 3 pattern, texts of up to LEN characters over the first NABC of " + TEXT),
    dict(name="whole", sources=SRC + CORE, **FS, quick=[dict(MODE=4, LEN=4)], thorough=[dict(MODE=4, LEN=5)], reach=["tokenized"],
         bounds="Qwen3 tokenizer with one vocabulary of bytes, merges and special tokens; texts of up to LEN characters or special tokens"),
]
BUDGET = dict(quick=100, thorough=700)
