// mkvid enc IN.y4m OUT CODEC GOP BFRAMES [AUDIO]   encode with libavcodec (one thread)
// mkvid dec FILE                          reference decode: one line per frame, fnv hash per plane
#include <libavcodec/avcodec.h>
#include <libavformat/avformat.h>
#include <libavutil/opt.h>
#include <libavutil/pixdesc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define CK(x) do { int r_ = (x); if (r_ < 0) { fprintf(stderr, "%s: %s\n", #x, av_err2str(r_)); exit(1); } } while (0)
#define NN(x) do { if (!(x)) { fprintf(stderr, "%s failed\n", #x); exit(1); } } while (0)

static AVFormatContext *in; static AVCodecContext *dc; static int vs;
static void open_in(const char *p) {
    CK(avformat_open_input(&in, p, 0, 0)); CK(avformat_find_stream_info(in, 0));
    vs = av_find_best_stream(in, AVMEDIA_TYPE_VIDEO, -1, -1, 0, 0); CK(vs);
    const AVCodec *c = avcodec_find_decoder(in->streams[vs]->codecpar->codec_id); NN(c);
    dc = avcodec_alloc_context3(c); CK(avcodec_parameters_to_context(dc, in->streams[vs]->codecpar));
    dc->thread_count = 1;
    CK(avcodec_open2(dc, c, 0));
}
typedef void (*sink)(AVFrame *);
static void drain(sink s, AVFrame *f) {
    while (avcodec_receive_frame(dc, f) >= 0) { s(f); av_frame_unref(f); }
}
static void decode(sink s) {
    AVPacket *p = av_packet_alloc(); AVFrame *f = av_frame_alloc();
    while (av_read_frame(in, p) >= 0) {
        if (p->stream_index == vs && avcodec_send_packet(dc, p) >= 0) drain(s, f);
        av_packet_unref(p);
    }
    avcodec_send_packet(dc, 0); drain(s, f);
}
static void show(AVFrame *f) {
    const AVPixFmtDescriptor *d = av_pix_fmt_desc_get(f->format);
    int by = d->comp[0].depth > 8 ? 2 : 1;
    if (d->nb_components < 3) { printf("0 0 1  0 0 1  0 0 1 \n"); return; }
    for (int i = 0; i < 3; i++) {
        int w = i ? AV_CEIL_RSHIFT(f->width, d->log2_chroma_w) : f->width, h = i ? AV_CEIL_RSHIFT(f->height, d->log2_chroma_h) : f->height;
        // raw plane values in hex: the caller realigns and hashes
        printf("%d %d %d ", w, h, by);
        for (int y = 0; y < h; y++) for (int x = 0; x < w * by; x++) printf("%02x", f->data[i][y * f->linesize[i] + x]);
        printf(i == 2 ? "\n" : " ");
    }
}
static AVFormatContext *oc; static AVCodecContext *ec; static AVStream *os; static int64_t n; static AVPacket *ep;
static const char *codec; static int gop, bf, with_audio; static const char *outp;
static AVStream *as, *os2; static int64_t an, vn;
// AUDIO 5: so many pictures per second that some share a timestamp
// AUDIO 4: two pictures in one packet (a VP9 superframe)
static AVPacket *held;
static int put_size(uint8_t *p, int n) { for (int i = 0; i < 4; i++) p[i] = n >> 8 * i; return 4; }
static void pack(void) {
    AVPacket *p = av_packet_alloc();
    int a = held->size, b = ep->size;
    CK(av_new_packet(p, a + b + 10));
    memcpy(p->data, held->data, a); memcpy(p->data + a, ep->data, b);
    uint8_t *q = p->data + a + b;
    *q++ = 0xd9; q += put_size(q, a); q += put_size(q, b); *q = 0xd9;
    av_packet_copy_props(p, held);
    av_packet_free(&held); av_packet_unref(ep); av_packet_move_ref(ep, p); av_packet_free(&p);
}
static void flush_enc(int last) {
    for (;;) {
        if (avcodec_receive_packet(ec, ep) < 0) {
            if (!last || !held) return;
            av_packet_move_ref(ep, held); av_packet_free(&held);
        } else if (with_audio == 4) {
            if (!held) { held = av_packet_clone(ep); av_packet_unref(ep); continue; }
            pack();
        }
        av_packet_rescale_ts(ep, ec->time_base, os->time_base); ep->stream_index = os->index;
        AVPacket *q = os2 && (gop != 1 || vn++ % 2 == 0) ? av_packet_clone(ep) : 0;
        CK(av_interleaved_write_frame(oc, ep));
        if (q) { q->stream_index = os2->index; CK(av_interleaved_write_frame(oc, q)); av_packet_free(&q); }
    }
}
// AUDIO: 1 one audio packet per picture, 2 eighty of them, 3 a second video track with some of the pictures
static void audio(void) {
    // one raw audio packet, interleaved with the pictures
    int ns = with_audio == 2 ? 4 : 320;
    AVPacket *p = av_packet_alloc(); CK(av_new_packet(p, 2 * ns));
    for (int i = 0; i < 2 * ns; i++) p->data[i] = (uint8_t)(i * 7 + an);
    p->stream_index = as->index; p->pts = p->dts = av_rescale_q(an, (AVRational){1, 8000}, as->time_base); p->duration = av_rescale_q(ns, (AVRational){1, 8000}, as->time_base);
    p->flags |= AV_PKT_FLAG_KEY; an += ns;
    CK(av_interleaved_write_frame(oc, p)); av_packet_free(&p);
}
static void enc(AVFrame *f) {
    if (!oc) {
        CK(avformat_alloc_output_context2(&oc, 0, 0, outp));
        oc->flags |= AVFMT_FLAG_BITEXACT;
        const AVCodec *c = avcodec_find_encoder_by_name(codec); NN(c);
        ec = avcodec_alloc_context3(c);
        ec->width = f->width; ec->height = f->height; ec->pix_fmt = f->format; int fps = with_audio == 5 ? 3000 : 25;
        ec->time_base = (AVRational){1, fps}; ec->framerate = (AVRational){fps, 1};
        ec->gop_size = gop; ec->max_b_frames = bf; ec->thread_count = 1; ec->flags |= AV_CODEC_FLAG_BITEXACT; ec->bit_rate = 4000000;
        ec->strict_std_compliance = -2;
        if (!strcmp(codec, "mpeg4") || !strcmp(codec, "mpeg2video")) { ec->flags |= AV_CODEC_FLAG_QSCALE; ec->global_quality = 3 * FF_QP2LAMBDA; }
        if (!strcmp(codec, "ffv1")) ec->level = 3;
        if (with_audio == 4) { CK(av_opt_set_int(ec->priv_data, "lag-in-frames", 0, 0)); CK(av_opt_set_int(ec->priv_data, "auto-alt-ref", 0, 0)); }
        if (oc->oformat->flags & AVFMT_GLOBALHEADER) ec->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
        CK(avcodec_open2(ec, c, 0));
        if (with_audio == 1 || with_audio == 2) {
            as = avformat_new_stream(oc, 0); as->codecpar->codec_type = AVMEDIA_TYPE_AUDIO; as->codecpar->codec_id = AV_CODEC_ID_PCM_S16LE;
            as->codecpar->sample_rate = 8000; av_channel_layout_default(&as->codecpar->ch_layout, 1); as->codecpar->format = AV_SAMPLE_FMT_S16;
            as->codecpar->bits_per_coded_sample = 16; as->codecpar->block_align = 2; as->codecpar->bit_rate = 128000; as->time_base = (AVRational){1, 8000};
        }
        os = avformat_new_stream(oc, 0); CK(avcodec_parameters_from_context(os->codecpar, ec)); os->time_base = ec->time_base; os->avg_frame_rate = ec->framerate;
        if (with_audio == 3) { os2 = avformat_new_stream(oc, 0); CK(avcodec_parameters_from_context(os2->codecpar, ec)); os2->time_base = ec->time_base; os2->avg_frame_rate = ec->framerate; }
        CK(avio_open(&oc->pb, outp, AVIO_FLAG_WRITE)); CK(avformat_write_header(oc, 0));
        ep = av_packet_alloc();
    }
    for (int i = 0; as && i < (with_audio == 2 ? 80 : 1); i++) audio();
    f->pts = n++; f->pict_type = 0; f->quality = ec->global_quality;
    CK(avcodec_send_frame(ec, f)); flush_enc(0);
}
int main(int c, char **v) {
    av_log_set_level(AV_LOG_ERROR);
    if ((c == 7 || c == 8) && !strcmp(v[1], "enc")) {
        outp = v[3]; codec = v[4]; gop = atoi(v[5]); bf = atoi(v[6]); with_audio = c == 8 ? atoi(v[7]) : 0;
        open_in(v[2]); decode(enc);
        NN(oc); CK(avcodec_send_frame(ec, 0)); flush_enc(1); CK(av_write_trailer(oc)); avio_close(oc->pb);
        return 0;
    }
    if (c == 3 && !strcmp(v[1], "dec")) { open_in(v[2]); decode(show); return 0; }
    return 2;
}
