// Stand-in for dr_wav (not available offline): what the software uses of it, for 16 bit PCM and 32 bit float RIFF files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
using drwav_bool32 = uint32_t;
using drwav_uint64 = uint64_t;
enum drwav_container { drwav_container_riff };
enum { DR_WAVE_FORMAT_PCM = 1, DR_WAVE_FORMAT_IEEE_FLOAT = 3 };
struct drwav_data_format {
  drwav_container container;
  uint32_t format, channels, sampleRate, bitsPerSample;
};
struct drwav {
  uint32_t sampleRate;
  uint16_t channels;
  uint16_t bitsPerSample;
  drwav_uint64 totalPCMFrameCount;
  // own
  FILE *file;
  uint32_t format;
  long data;
  uint64_t written;
};
inline uint32_t drwav_le(const unsigned char *p, int n) {
  uint32_t v = 0;
  for (int i = n; i-- > 0;) v = v << 8 | p[i];
  return v;
}
inline drwav_bool32 drwav_init_file(drwav *w, const char *name, const void *) {
  if (!w || !name) return 0;
  std::memset(w, 0, sizeof *w);
  FILE *f = std::fopen(name, "rb");
  if (!f) return 0;
  unsigned char h[12];
  bool fmt = false;
  if (std::fread(h, 1, 12, f) == 12 && !std::memcmp(h, "RIFF", 4) && !std::memcmp(h + 8, "WAVE", 4)) {
    unsigned char c[8];
    while (std::fread(c, 1, 8, f) == 8) {
      const uint32_t n = drwav_le(c + 4, 4);
      if (!std::memcmp(c, "fmt ", 4) && n >= 16) {
        unsigned char b[16];
        if (std::fread(b, 1, 16, f) != 16) break;
        std::fseek(f, static_cast<long>(n - 16 + (n & 1)), SEEK_CUR);
        w->format = drwav_le(b, 2);
        w->channels = static_cast<uint16_t>(drwav_le(b + 2, 2));
        w->sampleRate = drwav_le(b + 4, 4);
        w->bitsPerSample = static_cast<uint16_t>(drwav_le(b + 14, 2));
        fmt = w->channels > 0 && w->sampleRate > 0 && ((w->format == DR_WAVE_FORMAT_PCM && w->bitsPerSample == 16) || (w->format == DR_WAVE_FORMAT_IEEE_FLOAT && w->bitsPerSample == 32));
        if (!fmt) break;
      } else if (!std::memcmp(c, "data", 4) && fmt) {
        w->data = std::ftell(f);
        std::fseek(f, 0, SEEK_END);
        const uint64_t rest = static_cast<uint64_t>(std::ftell(f) - w->data);
        w->totalPCMFrameCount = (n < rest ? n : rest) / (static_cast<uint64_t>(w->channels) * w->bitsPerSample / 8);
        std::fseek(f, w->data, SEEK_SET);
        w->file = f;
        return 1;
      } else std::fseek(f, static_cast<long>(n + (n & 1)), SEEK_CUR);
    }
  }
  std::fclose(f);
  std::memset(w, 0, sizeof *w);
  return 0;
}
inline drwav_uint64 drwav_read_pcm_frames_f32(drwav *w, drwav_uint64 frames, float *out) {
  if (!w || !w->file) return 0;
  drwav_uint64 k = 0;
  for (; k < frames; k++)
    for (int c = 0; c < w->channels; c++) {
      unsigned char b[4];
      const size_t n = w->bitsPerSample / 8;
      if (std::fread(b, 1, n, w->file) != n) return k;
      float v;
      if (w->format == DR_WAVE_FORMAT_PCM) v = static_cast<float>(static_cast<int16_t>(drwav_le(b, 2))) / 32768.0F;
      else std::memcpy(&v, b, 4);
      if (out) *out++ = v;
    }
  return k;
}
inline void drwav_head(drwav *w) {
  auto put = [&](uint32_t v, int n) {
    for (int i = 0; i < n; i++) std::fputc(static_cast<int>(v >> (8 * i) & 0xff), w->file);
  };
  const uint32_t frame = w->channels * w->bitsPerSample / 8U;
  const auto bytes = static_cast<uint32_t>(w->written);
  std::fwrite("RIFF", 1, 4, w->file);
  put(36 + bytes, 4);
  std::fwrite("WAVEfmt ", 1, 8, w->file);
  put(16, 4);
  put(w->format, 2);
  put(w->channels, 2);
  put(w->sampleRate, 4);
  put(w->sampleRate * frame, 4);
  put(frame, 2);
  put(w->bitsPerSample, 2);
  std::fwrite("data", 1, 4, w->file);
  put(bytes, 4);
}
inline drwav_bool32 drwav_init_file_write(drwav *w, const char *name, const drwav_data_format *f, const void *) {
  if (!w || !name) return 0;
  std::memset(w, 0, sizeof *w);
  w->file = std::fopen(name, "wb");
  if (!w->file) return 0;
  w->format = f->format;
  w->channels = static_cast<uint16_t>(f->channels);
  w->sampleRate = f->sampleRate;
  w->bitsPerSample = static_cast<uint16_t>(f->bitsPerSample);
  drwav_head(w);
  return 1;
}
inline drwav_uint64 drwav_write_pcm_frames(drwav *w, drwav_uint64 frames, const void *in) {
  if (!w || !w->file || !in) return 0;
  const size_t frame = w->channels * w->bitsPerSample / 8U;
  if (!frame) return 0;
  const size_t n = std::fwrite(in, frame, frames, w->file);
  w->written += n * frame;
  return n;
}
enum { DRWAV_SUCCESS = 0 };
inline int drwav_uninit(drwav *w) { // 0: success
  if (!w || !w->file) return -2;
  int res = 0;
  if (w->data == 0) {
    if (std::fflush(w->file)) res = -1;
    std::fseek(w->file, 0, SEEK_SET);
    drwav_head(w);
  }
  if (std::fclose(w->file)) res = -1;
  w->file = nullptr;
  return res;
}
