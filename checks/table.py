"""What each check builds and how far it explores."""
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -DNDEBUG"
FLAVORS = {
    "asan": "-O1 -g1 " + SAN,
    "asanjson": "-O1 -g1 " + SAN + " -include badjson.h",
    "fast": "-O2 -g1 -D_GLIBCXX_ASSERTIONS -DNDEBUG",
}
CHECKS = {
    "C07": {"flavor": "fast", "modules": ["tools", "types", "io"], "sources": ["c07.cpp"]},
    "C06": {"flavor": "fast", "modules": ["tools", "types", "io"], "sources": ["c06.cpp"]},
    "C01": {"flavor": "fast", "modules": ["tools", "types", "io!IOJson.cpp,IOJsonPrimitives.cpp"], "sources": ["c01.cpp"]},
    "C02": {"flavor": "fast", "modules": ["tools", "types", "io"], "sources": ["c02.cpp"]},
    "C03": {"flavor": "fast", "modules": ["tools", "types", "io!IOJson.cpp,IOJsonPrimitives.cpp"], "sources": ["c03.cpp"]},
    "C04": {"flavor": "fast", "modules": ["tools", "types", "io!IOJson.cpp,IOJsonPrimitives.cpp"], "sources": ["c04.cpp"]},
    "C05": {"flavor": "fast", "modules": ["tools", "types", "io!IOJson.cpp,IOJsonPrimitives.cpp"], "sources": ["c05.cpp"]},
    "C22": {"flavor": "fast", "modules": ["tools", "types", "io!IOJson.cpp,IOJsonPrimitives.cpp"], "sources": ["c22.cpp"]},
    "C13": {"flavor": "asan", "modules": ["tools", "types"], "sources": ["c13.cpp"]},
    "C14": {"flavor": "asan", "modules": ["tools", "types"], "sources": ["c14.cpp"]},
    "C15": {"flavor": "asan", "modules": ["tools", "types"], "sources": ["c15.cpp"]},
    "C16": {"flavor": "fast", "modules": ["tools", "types"], "sources": ["c16.cpp"]},
    "C12": {"flavor": "fast", "modules": ["tools", "types", "synth", "wavdec", "spiht", "filterbank"], "sources": ["c12.cpp"]},
    "C24": {"flavor": "fast", "modules": ["tools", "types", "wavdec", "spiht", "filterbank", "encoder!AhapEncoder.cpp,IvsEncoder.cpp", "psycho"], "sources": ["c24.cpp"]},
    "C19": {"flavor": "asan", "modules": ["tools", "types"], "sources": ["c19.cpp"]},
    "C20": {"flavor": "asan", "modules": ["tools", "types", "encoder!IvsEncoder.cpp,WaveletEncoder.cpp"], "sources": ["c20.cpp"]},
    "C21": {"flavor": "asan", "modules": ["tools", "types", "encoder!AhapEncoder.cpp,WaveletEncoder.cpp"], "sources": ["c21.cpp"]},
    "C08": {"flavor": "asanjson", "modules": ["tools", "types", "io"], "sources": ["c08.cpp"]},
    "C23": {"flavor": "fast", "modules": ["tools", "types", "io"], "sources": ["c23.cpp"], "mains": ["Decoder"]},
    "C25": {"flavor": "asan", "modules": ["tools", "types", "synth", "wavdec", "spiht", "filterbank"], "sources": ["c25.cpp"]},
    "C26": {"flavor": "fast", "modules": ["tools", "types", "io", "synth", "wavdec", "spiht", "filterbank", "encoder", "psycho"], "all": True, "sources": ["c26.cpp"], "mains": ["Encoder", "Synthesizer"]},
    "C27": {"flavor": "fast", "modules": ["tools", "types", "synth", "wavdec", "spiht", "filterbank", "encoder!AhapEncoder.cpp,IvsEncoder.cpp", "psycho"], "all": True, "sources": ["c27.cpp"]},
    "C17": {"flavor": "fast", "modules": ["tools", "types", "synth", "wavdec", "spiht", "filterbank"], "sources": ["c17.cpp"]},
    "C18": {"flavor": "fast", "modules": ["tools", "types"], "sources": ["c18.cpp"]},
    "C10": {"flavor": "fast", "modules": ["spiht"], "sources": ["c10.cpp"]},
    "C11": {"flavor": "fast", "modules": ["spiht", "types", "tools"], "sources": ["c11.cpp"]},
    "C09": {"flavor": "asan", "modules": ["io!IOJson.cpp,IOJsonPrimitives.cpp,IOStream.cpp,IOBinary.cpp,IOBinaryBands.cpp"], "sources": ["c09.cpp"]},
}
NOTES = {}
NOT_APPLICABLE = {}

from checks.bounds import B, COMMON  # noqa: E402
for _id, (_bounds, _assumptions) in B.items():
    if _id in CHECKS:
        CHECKS[_id]["bounds"] = _bounds
        CHECKS[_id]["assumptions"] = _assumptions + [COMMON]
