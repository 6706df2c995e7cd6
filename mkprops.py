#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay reviewable)."""
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
PGS="src/pgs/"; V="src/vobsub/"
p("C01","PGS segment headers are decoded exactly",
 "A PGS segment header is accepted only if its 13 bytes start with 'PG' and carry a known segment type; the presentation time is then the big-endian 32-bit PTS divided by 90 (in ms), and type and payload size are exactly the encoded ones. Any other 13 bytes give an error, and fewer than 13 remaining bytes end the stream without an error.",
 ["inputs"],"all 13-byte headers and all stream tails","The tests read two fixture files, i.e. a few dozen of the 2^104 headers; no malformed header is ever read.",
 [PGS+"segment.rs"],[("read_header / parse_segment_header","src/pgs/segment.rs"),("SegmentTypeCode::try_from","src/pgs/segment.rs"),("SegmentHeader::presentation_time","src/pgs/segment.rs")],obs=["SupParser::next"])
p("C02","Time-only PGS parsing pairs END segments and never loses framing",
 "For every byte stream, the time-only PGS parser yields one time span per consecutive pair of END segments, in stream order, whose start and end are the presentation times of these two segments. Every other segment is skipped by exactly its declared payload size whatever it contains, an unpaired END yields nothing, and a malformed segment header is reported as an error rather than as a subtitle.",
 ["inputs","histories"],"all byte streams, all sequences of calls to next()","Tests run one fixture with one subtitle through this parser.",
 [PGS+"decoder.rs",PGS+"segment.rs",PGS+"mod.rs",PGS+"sup.rs"],[("DecodeTimeOnly::parse_next","src/pgs/decoder.rs"),("skip_segment / ReadExt::skip_data","src/pgs/segment.rs, src/pgs/mod.rs"),("SupParser::next","src/pgs/sup.rs")],obs=["SupParser<_, DecodeTimeOnly>::next"])
p("C03","A PGS subtitle is built from exactly its own segments",
 "For every byte stream, the image PGS parser yields per pair of END segments the span of their presentation times together with the last object completed since the previous subtitle, coloured by the last palette segment read before that object. A pair without an object is reported as a missing image and an object without a palette as a missing palette; nothing read for one subtitle leaks into the next one.",
 ["inputs","histories"],"all segment sequences, all sequences of calls to next()","Two fixtures only; only the times of the result are asserted, never the image.",
 [PGS+"decoder.rs",PGS+"sup.rs"],[("DecodeTimeImage::parse_next","src/pgs/decoder.rs")],obs=["SupParser<_, DecodeTimeImage>::next"])
p("C04","PGS object data is reassembled byte for byte",
 "An image object carried by one object segment, or split over a first and a last one, is delivered with its declared width and height and with data that is exactly the concatenation of the segments' data bytes, of exactly the declared length. Object segments whose sizes or first/last flags are inconsistent give an error, never truncated, padded or shifted data.",
 ["inputs","histories"],"all object segments and pairs of object segments, all sizes up to 16 MiB","Tests never look at the object data; no fixture has an inconsistent object.",
 [PGS+"ods.rs",PGS+"u24.rs"],[("ods::read","src/pgs/ods.rs"),("LastInSequenceFlag::try_from","src/pgs/ods.rs"),("u24::to_u32","src/pgs/u24.rs")],[("ObjectDefinitionSegment::Partial","object data read so far and how many bytes of it","src/pgs/ods.rs")],["RleEncodedImage from SupParser<_, DecodeTimeImage>"])
p("C05","A PGS palette id selects the entry that declared it",
 "A palette segment with n five-byte entries is read as exactly these n entries, each with its id, luminance and transparency in the encoded order; a segment whose size is not a whole number of entries is an error. Looking up a colour id then gives the luminance and alpha of the entry declared with that id, whatever the order and gaps of the ids, and the default (white, transparent) when no entry declares it.",
 ["inputs"],"all palette segments with distinct entry ids, all colour ids","No test looks at a palette or a pixel.",
 [PGS+"pds.rs",PGS+"pgs_image.rs"],[("pds::read","src/pgs/pds.rs"),("Palette::get","src/pgs/pds.rs"),("RlePixelIterator::next","src/pgs/pgs_image.rs")],obs=["RleEncodedImage::iter"])
p("C06","PGS run-length data decodes to exactly the encoded pixels",
 "Iterating over a PGS image yields, in order and for all run-length data, exactly the pixels its codes denote: a non-zero byte is one pixel of that colour; a zero byte then a flag byte is a run with a 6 or 14 bit length of colour 0 or of the explicit colour; two zero bytes (end of line) and zero-length runs yield nothing. Each pixel has the luminance and alpha of its palette entry, and iteration ends when the data is exhausted or truncated.",
 ["inputs"],"all run-length byte strings, all palettes","No test decodes a PGS image.",
 [PGS+"pgs_image.rs"],[("RlePixelIterator::read_next_pixel","src/pgs/pgs_image.rs"),("RlePixelIterator::next","src/pgs/pgs_image.rs"),("pe_to_luma_a","src/pgs/pgs_image.rs")],[("nb_remaining_pixels/current_color","rest of the run being emitted","src/pgs/pgs_image.rs")],["RleEncodedImage::iter / pixels"])
p("C07","PGS images are rendered pixel for pixel",
 "For every PGS image whose run-length data holds width*height pixels, the rendered image has that width and height and its pixel (x, y) is the conversion of the (y*width+x)-th decoded pixel. The OCR rendering is larger by the border on each of the four sides, shows the same pixels inside and only the background colour in the border; the default options are a border of 5 pixels, black text and white background.",
 ["inputs"],"all images, conversion functions and border sizes for which the output size is representable","No test renders a PGS image.",
 [PGS+"pgs_image.rs"],[("RleToImage::to_image","src/pgs/pgs_image.rs"),("ToOcrImage for RleToImage","src/pgs/pgs_image.rs")],obs=["RleToImage::to_image, RleToImage::image"])
p("C08","PGS parsing never panics and always makes progress",
 "Whatever bytes a .sup stream contains, parsing it with either PGS decoder and iterating over the pixels of the images it yields never panics, overflows or reads out of bounds: malformed content gives an error or ends the iteration. Every item the parser yields consumes at least one byte of the stream, so every finite stream is exhausted after finitely many items, and every decoded image yields finitely many pixels.",
 ["inputs","histories"],"all byte streams","Tests read two well-formed fixtures.",
 [PGS+"decoder.rs",PGS+"ods.rs",PGS+"pds.rs",PGS+"pgs_image.rs",PGS+"segment.rs"],[("error returns for all inconsistent sizes","src/pgs/ods.rs, src/pgs/pds.rs"),("RlePixelIterator","src/pgs/pgs_image.rs")],obs=["SupParser::next, RleEncodedImage::iter"])
p("C09","VobSub packets are demultiplexed exactly and resynchronised",
 "For every byte stream, the VobSub reader delivers, in stream order and each once, the packets found by searching for the next program-stream start code: a packet is accepted only if its pack header (version and marker bits, 0 to 7 stuffing bytes) and the following private-stream-1 packet are well-formed and complete, and then its sub-stream id and payload are exactly the encoded bytes. Bytes that do not form such a packet are skipped without losing any later packet; a packet that announces more bytes than the stream holds gives one error and ends it, and the search always ends.",
 ["inputs"],"all byte streams","Three tiny fixtures and a few single-packet unit tests; no garbage, no stuffing, no truncated or false start code is ever parsed.",
 [V+"mpeg2/ps.rs",V+"mpeg2/pes.rs"],[("PesPackets::next","src/vobsub/mpeg2/ps.rs"),("ps::header / ps::pes_packet","src/vobsub/mpeg2/ps.rs"),("pes::packet, pes::header, header_data","src/vobsub/mpeg2/pes.rs")],obs=["Sub::subtitles"])
p("C10","MPEG time stamps are decoded bit for bit",
 "The presentation time stamp of a packet is present exactly when its flags announce one (with or without a decoding time stamp) and is then the 33-bit value encoded in its 36-bit field; a prefix other than 0010 or a cleared marker bit rejects the packet. A subtitle's times follow from this value divided by 90000 and are exact to the millisecond (at most 1 ms off) for every 33-bit value.",
 ["inputs"],"all 40-bit and 80-bit time stamp fields, all 33-bit values","One value is tested for each field.",
 [V+"mpeg2/clock.rs",V+"mpeg2/pes.rs","src/time/time_point.rs"],[("clock","src/vobsub/mpeg2/clock.rs"),("pts_only / pts_and_dts / pts_dts","src/vobsub/mpeg2/pes.rs"),("Clock::as_seconds, TimePoint::from_secs","src/vobsub/mpeg2/clock.rs, src/time/time_point.rs")],obs=["TimeSpan yielded by Sub::subtitles"])
p("C11","VobSub subtitles are reassembled from their packets",
 "A subtitle's data is the payload of its first packet followed by the payloads of the next packets of the same sub-stream, in order, until the 16-bit size announced by its first two bytes is reached, cut to exactly that size; packets of other sub-streams met meanwhile are skipped. Its base time is the time stamp of the first packet; a first packet without time stamp or with fewer than two payload bytes is an error, and if the stream ends before the size is reached nothing is delivered.",
 ["inputs","histories"],"all packet sequences","One split fixture with two packets.",
 [V+"sub.rs"],[("VobsubParser::next_sub_packet","src/vobsub/sub.rs")],obs=["Sub::subtitles"])
p("C12","VobSub control commands are decoded exactly",
 "A control sequence is a 16-bit date, a 16-bit next offset and commands up to the 0xff end marker: 00 force, 01 start, 02 stop, 03 palette and 04 alpha (four 4-bit values each), 05 area (four 12-bit values x1, x2, y1, y2), 06 two 16-bit data offsets, and otherwise unsupported data up to the end marker. Every byte string that encodes such a sequence is decoded to exactly these commands in order, and one that ends before its end marker is an error.",
 ["inputs"],"all byte strings","Three literal sequences are tested.",
 [V+"sub.rs"],[("control_sequence / control_command","src/vobsub/sub.rs"),("palette_entries, area, rle_offsets","src/vobsub/sub.rs")],obs=["Sub::subtitles"])
p("C13","A VobSub subtitle is the merge of its control sequences",
 "The control sequences of a subtitle are followed from the offset in its header through their next offsets up to the one that points to itself; start, stop, palette, alpha and area are taken from the first command that gives them and the data offsets from the last one, dates being hundredths of a second after the base time, and palette and alpha are stored in reverse command order. Without a stop date the subtitle lasts five seconds; a backward or out-of-range next offset, an invalid area, a missing start/palette/alpha/area/offset command or data offsets outside the data give an error.",
 ["inputs"],"all subtitle packets","Only well-formed fixtures with two control sequences in order.",
 [V+"sub.rs",V+"decoder.rs",V+"img.rs"],[("subtitle","src/vobsub/sub.rs"),("VobSubDecoder::from_data","src/vobsub/decoder.rs"),("VobSubRleImageData::new","src/vobsub/img.rs")],obs=["Sub::subtitles"])
p("C14","VobSub run-length data decodes to exactly the encoded rows",
 "Decompression reads even rows from the first data offset and odd rows from the second, each row starting on a byte boundary right after the previous row of the same parity, and fills each row left to right with runs of 1, 2, 3 or 4 nibbles (2-bit colour, 2 to 8-bit length, length 0 meaning up to the end of the row; the number of leading zero bits, as far as the data goes, selects the form). The result has width*height pixels, each a 2-bit colour index; a run longer than the row or data that ends inside a row is an error.",
 ["inputs"],"all run-length data and all image sizes","Tests decode three fixtures and never look at a pixel.",
 [V+"img.rs"],[("decompress / scan_line","src/vobsub/img.rs"),("rle / count","src/vobsub/img.rs")],obs=["VobSubIndexedImage::raw_image"])
p("C15","VobSub images are rendered with the right palette and alpha",
 "Rendering a VobSub image gives an image of the area's width and height whose pixel (x, y) is the conversion of the palette colour and the alpha selected by the 2-bit index at row y, column x. The OCR rendering adds the border in background colour on the four sides and shows each pixel in text colour if its alpha is non-zero and its palette luminance is non-zero, in background colour otherwise. The luminance palette of an RGB palette holds, at each of the 16 positions, the luma of the colour at that position.",
 ["inputs"],"all decoded images (four 4-bit palette entries, 2-bit indices), palettes, conversion functions and border sizes for which the output size is representable","No test renders a VobSub image and checks a pixel.",
 [V+"img.rs"],[("VobSubToImage::to_image / compute_palette_color","src/vobsub/img.rs"),("VobSubOcrImage::image / compute_palette_color","src/vobsub/img.rs")],obs=["VobSubToImage::to_image, VobSubOcrImage::image"])
p("C16","VobSub parsing never panics and always terminates",
 "Whatever bytes a .sub file contains, iterating over its subtitles never panics, overflows or reads out of bounds: malformed content gives an error or is skipped. Every call terminates and every item it yields consumes at least one byte, so every finite file is exhausted after finitely many items.",
 ["inputs","histories"],"all byte streams","Tests read three well-formed fixtures.",
 [V+"sub.rs",V+"img.rs",V+"mpeg2/ps.rs",V+"mpeg2/pes.rs"],[("strictly increasing control offsets","src/vobsub/sub.rs subtitle"),("resynchronisation consumes the start code","src/vobsub/mpeg2/ps.rs"),("decompress returns errors","src/vobsub/img.rs")],obs=["Sub::subtitles"])
p("C17","Time points are rendered exactly as [-]HH:MM:SS<sep>mmm",
 "For every 64-bit millisecond value, the rendered time point is a minus sign if and only if it is negative, the hours with at least two digits, then minutes, seconds (two digits, below 60) and milliseconds (three digits), with the given separator before the milliseconds. These components recombine to exactly the original value, and rendering never fails or overflows by itself. Negating a time point negates its value (the smallest value, which has no negation, excepted), and its conversion to seconds is the value divided by 1000, to the precision of an f64.",
 ["inputs"],"all 2^64 values and all separators","No test renders a time point.",
 ["src/time/time_point.rs"],[("TimePoint::fmt_separator, hours, mins_comp, secs_comp, msecs_comp","src/time/time_point.rs")],obs=["TimePointSrt / TimePointVtt / TimePointIdx Display"])
p("C18","SubRip and WebVTT output is well-formed, complete and in order",
 "Writing a list of subtitles as SubRip emits, for the k-th one, the number k (from 1), a line with its start and end times separated by ' --> ' (comma before the milliseconds), its text unchanged, and an empty line, for all of them in order and nothing else. A WebVTT cue is the same without the number and with a dot before the milliseconds; a write error stops the output and is returned.",
 ["inputs"],"all lists of subtitles, all texts and times, all writers","No test writes a subtitle.",
 ["src/srt.rs","src/webvtt.rs","src/vobsub/idx.rs"],[("write_srt / write_line","src/srt.rs"),("write_line","src/webvtt.rs")],obs=["srt::write_srt, srt::write_line, webvtt::write_line"])
p("C19","Areas are valid, and their geometry is inclusive and exact",
 "A rectangle of coordinates is accepted as an area only if its right and bottom edges lie strictly beyond its left and top ones; coordinates with a smaller or equal second edge are rejected. For every accepted area left and top are the given ones, and width and height are the number of columns and rows from first to last inclusive, computed without overflow, and the size agrees with them.",
 ["inputs"],"all 2^64 coordinate quadruples","One area is built in the tests.",
 ["src/content/area.rs","src/image/mod.rs"],[("Area::try_from, width, height, size","src/content/area.rs"),("ImageSize for ImageArea","src/image/mod.rs")],obs=["Area, ImageSize"])
p("C20","The idx palette is parsed exactly or rejected",
 "A palette text is accepted exactly when it is 16 colours of six hexadecimal digits each (either case) separated by ', ', and gives these 16 RGB colours in order. Fewer or more colours, a malformed colour or separator are an error, never a wrong palette. The `palette` parser itself also hands back whatever follows the 16 colours; reading an index rejects any such rest.",
 ["inputs"],"all byte strings","One palette and one colour are tested.",
 [V+"palette.rs"],[("palette, hex_rgb, hex_primary, from_hex","src/vobsub/palette.rs")],obs=["vobsub::palette, Index::read_index"])
p("C21","An idx file's keys are read independently of order and noise",
 "For every text, the index has the palette of the last 'palette' line, or the default palette if there is none, and the language of the last 'id' line, or none; all other lines are ignored and lines may come in any order. An invalid palette line or a read error is reported as an error.",
 ["inputs","fault_sequences"],"all sequences of lines, all read errors","One fixture is read; language, repeated keys, missing keys and errors are never tested.",
 [V+"idx.rs"],[("Index::read_index","src/vobsub/idx.rs"),("Lang::try_from","src/vobsub/idx.rs")],obs=["Index::read_index, Index::palette, Index::lang"])
p("C22","OCR thresholding follows both thresholds",
 "Converting a luminance-alpha pixel for OCR gives black exactly when its alpha reaches the alpha threshold and its luminance reaches the luminance threshold, and white otherwise. The compile-time and the run-time variants agree for all pixels and thresholds.",
 ["inputs"],"all pixels and all thresholds","No test calls either variant.",
 ["src/image/pixels.rs"],[("luma_a_to_luma","src/image/pixels.rs"),("luma_a_to_luma_convertor","src/image/pixels.rs")],obs=["image::luma_a_to_luma, image::luma_a_to_luma_convertor"])
p("C23","File probing answers by the magic bytes alone",
 "A file is reported as an idx file exactly when it starts with '# VobSub index file', and as a sub file exactly when it starts with the bytes 00 00 01 ba; every other readable file that is at least as long as the magic is reported as not being one. A file that is shorter or cannot be read is an error, never a positive answer.",
 ["inputs","fault_sequences"],"all file contents and read failures","Two fixtures are probed.",
 [V+"probe.rs"],[("has_magic, is_idx_file, is_sub_file","src/vobsub/probe.rs")],obs=["vobsub::is_idx_file, vobsub::is_sub_file"])
p("C24","Dumped images are complete and numbered in order",
 "Dumping a sequence of images writes the k-th image (from 0) to the file named by k with six digits and the extension png in the target folder, creating the folder if needed, for all of them in order. The first failure stops the dump and is returned with the path it concerns.",
 ["inputs","fault_sequences"],"all image sequences and write failures","No test dumps images.",
 ["src/image/utils.rs"],[("dump_images","src/image/utils.rs")],obs=["image::dump_images"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
