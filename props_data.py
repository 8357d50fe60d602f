HOOK_COMMITS = ["527b7d9"]
I = ["inputs"]
prop("C01", "Lossless JPEG: decoding an encoded image returns every sample unchanged",
  "For every image of 16-bit samples that fit the declared precision, any supported predictor (1 to 7), component count and row padding, compressing to lossless JPEG and decompressing returns exactly the original samples, dimensions and component count. The compressed stream is valid lossless JPEG (T.81 process 14), so an independent standard decoder reads the same samples, and streams of other encoders with other Huffman tables are decoded to the samples they encode. Decoding into a larger buffer at an offset, or decoding a cropped width, writes only the requested region.",
  I, "all sample values, shapes, predictors, component counts, precisions and Huffman tables",
  "A wrong code length, predictor, sign-extension or stuffing byte shows up only for particular sample differences; the tests encode a handful of fixed images.",
  ["rawler/src/ljpeg92.rs", "rawler/src/decompressors/ljpeg/mod.rs", "rawler/src/decompressors/ljpeg/huffman.rs", "rawler/src/decompressors/ljpeg/decompressors.rs", "rawler/src/bitstream.rs"],
  [("LjpegCompressor::encode", "rawler/src/ljpeg92.rs"), ("LjpegDecompressor::decode", "rawler/src/decompressors/ljpeg/mod.rs"), ("HuffTable", "rawler/src/decompressors/ljpeg/huffman.rs")])
prop("C03", "Bit readers return exactly the bits of the stream, in order",
  "Each bit reader (MSB first, LSB first, 32-bit word MSB, JPEG with stuffing) returns, for any sequence of reads, peeks and skips, exactly the bits the byte stream holds in that reader's bit order, regardless of how the reads are split. Peeking never advances and skipping n bits equals reading n bits; the JPEG reader delivers zero bits behind a marker or the end of its data. Byte streams deliver every multi-byte integer in the selected byte order and advance by exactly its size.",
  I + ["histories"], "all buffers and all sequences of read widths up to the bound",
  "The refill logic depends on the number of cached bits and on the position in the buffer; tests touch a few widths on a few buffers.",
  ["rawler/src/pumps.rs", "rawler/src/bits.rs"],
  [("BitPump implementations", "rawler/src/pumps.rs"), ("ByteStream", "rawler/src/pumps.rs"), ("Endian readers", "rawler/src/bits.rs")])
prop("C04", "Packed raw samples are unpacked to exactly the stored values",
  "For every buffer that is long enough, each packed sample layout (8, 10, 12, 14 and 16 bit, big and little endian, 16/32-bit word order, control bytes, interlaced, padded rows, left-aligned) yields for each pixel exactly the bits stored at that pixel's position, for every width and height. A buffer that is too short is reported as an error, never read past its end. In particular the sample decoder for uncompressed integer data gives the same result for every width, bit depth and starting row.",
  I, "all buffer contents, widths, heights, bit depths",
  "Unpackers work in groups of pixels, so errors hide in rare widths, last groups and odd rows; tests decode few or no buffers of these layouts.",
  ["rawler/src/decompressors/packed.rs"],
  [("decompress_* functions", "rawler/src/decompressors/packed.rs"), ("PackedDecompressor", "rawler/src/decompressors/packed.rs")], hook="rawler::verif_hooks::packed")
prop("C05", "TIFF structures written are read back unchanged and follow the TIFF layout",
  "Whatever directory of tags the TIFF writer is given (any value type, any element values, any count, nested sub-directories, raw data blocks), the file it produces follows the TIFF 6.0 layout: entries in ascending tag order, each tag once, values of up to four bytes embedded and left-aligned, longer ones at even offsets inside the file, and the reader returns every tag with the same type, count and values. The reader decodes foreign files of both byte orders, base offsets and offset corrections the same way. Numeric accessors return the exact value or nothing, never a truncated one.",
  I + ["histories"], "all value types, element values, counts, tag numbers and byte orders",
  "Each value type has its own embedding, padding and byte-order code; a wrong cast shows up only for particular values (negative, float, odd length).",
  ["rawler/src/formats/tiff/writer.rs", "rawler/src/formats/tiff/reader.rs", "rawler/src/formats/tiff/ifd.rs", "rawler/src/formats/tiff/value.rs", "rawler/src/formats/tiff/entry.rs"],
  [("DirectoryWriter::build", "rawler/src/formats/tiff/writer.rs"), ("Value::as_embedded / write / force_*", "rawler/src/formats/tiff/value.rs"), ("Entry::parse", "rawler/src/formats/tiff/entry.rs"), ("IFD::new", "rawler/src/formats/tiff/ifd.rs")])
prop("C06", "Damaged or hostile TIFF files give an error or a partial result, never a crash or a hang",
  "Opening any byte sequence as a TIFF file ends in bounded time and memory with a directory tree or an error: it never panics, loops on cyclic or self-referencing directory chains, or allocates memory for values that cannot be in the file. An unreadable entry does not affect the other entries of the directory or the directories after it. Reading a region of a source file returns exactly those bytes, or an error if the region is not inside the file (zero padding only where the padded form is asked for), and strip or tile tables that do not fit the image are reported as errors. Maker notes of any content are handled the same way.",
  I, "all file contents within the bound",
  "Real-world and hostile files differ from samples in single fields; the tests only open intact files.",
  ["rawler/src/formats/tiff/reader.rs", "rawler/src/formats/tiff/ifd.rs", "rawler/src/formats/tiff/entry.rs", "rawler/src/rawsource.rs", "rawler/src/bits.rs"],
  [("GenericTiffReader / TiffReader", "rawler/src/formats/tiff/reader.rs"), ("IFD::new, parse_makernote, strip_data, tile access", "rawler/src/formats/tiff/ifd.rs"), ("Entry::parse", "rawler/src/formats/tiff/entry.rs"), ("RawSource::subview*", "rawler/src/rawsource.rs")])
prop("C07", "Raw pixels written to a DNG come back unchanged",
  "Writing a raw image to a DNG and reading that file again returns exactly the same samples, width, height and components per pixel: for monochrome, Bayer, X-Trans and RGB images, 16-bit integer and float samples, uncompressed (any number of strips) and lossless compressed (any number of tiles, every predictor), whatever the dimensions, including images smaller than a tile or not a multiple of the tile or strip size.",
  I, "all sample values, image shapes, predictors and storage modes up to the bound",
  "The tile and strip cutting, padding, bit depth and predictor choices interact with the image size; there is no test that converts and reads back.",
  ["rawler/src/dng/writer.rs", "rawler/src/decoders/dng.rs", "rawler/src/decoders/mod.rs", "rawler/src/tiles.rs", "rawler/src/imgop/mod.rs", "rawler/src/ljpeg92.rs"],
  [("SubFrameWriter::raw_image", "rawler/src/dng/writer.rs"), ("dng_put_raw_ljpeg / uncompressed", "rawler/src/dng/writer.rs"), ("DngDecoder::raw_image", "rawler/src/decoders/dng.rs"), ("plain_image_from_ifd", "rawler/src/decoders/mod.rs")])
prop("C08", "Geometry and calibration of a raw image survive in the DNG",
  "The DNG written for a raw image describes it per the DNG specification, and reading it back yields the same: active area and default crop in sensor coordinates (per crop mode), the CFA color of every sensor position whatever the active area offset, black level per position and component (whole and fractional), white levels, masked areas, the neutral as reciprocal of the white balance, and the color matrices with their calibration illuminants to four decimals.",
  I, "all rectangles, pattern phases, level values and matrix coefficients up to the bound",
  "A pattern or level shifted by one row is visible only for odd offsets; tests check no written DNG.",
  ["rawler/src/dng/writer.rs", "rawler/src/decoders/dng.rs", "rawler/src/rawimage.rs", "rawler/src/cfa.rs", "rawler/src/formats/tiff/value.rs", "rawler/src/imgop/mod.rs"],
  [("SubFrameWriter::raw_image, DngWriter::load_base_tags", "rawler/src/dng/writer.rs"), ("DngDecoder::get_*", "rawler/src/decoders/dng.rs"), ("BlackLevel, WhiteLevel", "rawler/src/rawimage.rs"), ("CFA::shift", "rawler/src/cfa.rs")])
prop("C09", "Image data of foreign DNG and TIFF layouts is decoded to the samples stored",
  "Raw image data in a DNG or TIFF directory is decoded to exactly the samples it stores, for every layout the reader accepts: strips and tiles in any order and at any offset (edge tiles cut to the image), both byte orders, integer depths of 8 to 16 bits, 16, 24 and 32 bit floats including infinities and denormals, deflated float data with each floating point predictor, lossless JPEG tiles and strips, one and three components, row and column interleaved storage. Data shorter than the image needs, or an offset table with too few entries, is an error.",
  I, "all sample contents, layouts, orders and sizes up to the bound",
  "Layouts are combinations of a dozen parameters, the sample files cover a few of them; edge tiles and rare bit depths are wrong silently.",
  ["rawler/src/decoders/mod.rs", "rawler/src/decompressors/mod.rs", "rawler/src/decompressors/deflate.rs", "rawler/src/decompressors/packed.rs", "rawler/src/decompressors/ljpeg/mod.rs", "rawler/src/tiles.rs", "rawler/src/bits.rs", "rawler/src/formats/tiff/ifd.rs"],
  [("plain_image_from_ifd, decode_strips, decode_tiles", "rawler/src/decoders/mod.rs"), ("DeflateDecompressor", "rawler/src/decompressors/deflate.rs"), ("extend_binary_floating_point", "rawler/src/bits.rs"), ("TilesMut", "rawler/src/tiles.rs")])
prop("C10", "EXIF and GPS metadata is carried into the DNG unchanged",
  "Every EXIF and GPS field that is known for a raw image is written to the DNG under its own tag, in the right directory (root, EXIF, GPS), with the EXIF value type and exactly its value; fields that are not known are not written, and no set of values makes the writer fail. Reading the metadata of the DNG yields the same values again. The unique image id, the lens info and the XMP packet are stored unchanged, and the modification time derived from the metadata is the recorded local time in the recorded time zone.",
  I, "all field values, every field alone and all together",
  "76 fields are mapped one by one to tags in two directions; a swapped tag or type is not visible to the tests, which check no metadata round trip.",
  ["rawler/src/formats/tiff/writer.rs", "rawler/src/exif.rs", "rawler/src/tags.rs", "rawler/src/dng/writer.rs", "rawler/src/decoders/mod.rs"],
  [("RawMetadata::write_exif_tags, fill_exif_ifd, fill_exif_root", "rawler/src/formats/tiff/writer.rs"), ("Exif::new", "rawler/src/exif.rs"), ("DngWriter::load_metadata", "rawler/src/dng/writer.rs"), ("RawMetadata::last_modified", "rawler/src/decoders/mod.rs")])
prop("C11", "The original raw file embedded in a DNG is restored byte for byte",
  "Embedding a file in a DNG and extracting it returns exactly the original bytes, for every file length (including empty files and lengths around the 64 KiB block size), together with its name, its MD5 digest and the byte count. The embedded data has the layout the DNG specification requires. Extraction with checks enabled never succeeds when the digest is missing or differs or when a block is damaged, and hostile block tables end in an error without excessive allocation.",
  I, "all block counts, stored contents, digests and block tables up to the bound",
  "Block boundaries and damaged tables are not in the tests, which embed five bytes.",
  ["rawler/src/dng/original.rs", "rawler/src/dng/writer.rs"],
  [("OriginalCompressed::compress / new / decompress / write_to_stream", "rawler/src/dng/original.rs"), ("DngWriter::original_file", "rawler/src/dng/writer.rs")])
prop("C12", "Cropping, rotating, tiling and pattern shifts move samples without changing them",
  "The image operations that rearrange a picture only rearrange it: a crop contains exactly the samples of the area (integer, float and color images), the eight orientations and their rotations/flips place every pixel where the TIFF standard says, cutting into tiles and writing through tiles visits every pixel exactly once, rectangles keep naming the same area in every representation, the color filter pattern tells the color of every sensor position and stays in phase when shifted, remapped or read from a tag, and black levels stay in phase when shifted or measured from masked areas.",
  I, "all sample values, areas, orientations, offsets, patterns and tile sizes up to the bound",
  "Off-by-one and phase errors depend on odd offsets and non-square sizes that tests do not enumerate.",
  ["rawler/src/pixarray.rs", "rawler/src/imgop/mod.rs", "rawler/src/imgop/raw.rs", "rawler/src/cfa.rs", "rawler/src/tiles.rs", "rawler/src/rawimage.rs", "rawler/src/decoders/mod.rs"],
  [("Pix2D, Color2D, rotate*", "rawler/src/pixarray.rs"), ("Rect, crop", "rawler/src/imgop/mod.rs"), ("rotate_90", "rawler/src/imgop/raw.rs"), ("CFA", "rawler/src/cfa.rs"), ("ImageTiler, TilesMut", "rawler/src/tiles.rs"), ("BlackLevel::shift, calc_black_levels", "rawler/src/rawimage.rs"), ("Orientation", "rawler/src/decoders/mod.rs")])
prop("C13", "Developing a raw image computes the published algorithms and crops exactly",
  "Scaling maps every sample to max(0, sample - black) / (white - black) of its own color filter position or component. Demosaicing (PPG, four-color bilinear, X-Trans bilinear, superpixel) keeps every measured sample (X-Trans takes the mean of its neighbourhood) and computes the missing colors as the published algorithm says, on every filter phase, area and size, never reading outside the area. The developed image is exactly the area asked for: the default crop, the active area or the full image, moved into the coordinates of what is being cropped.",
  I, "all sample values, levels, filter phases, areas and sizes up to the bound",
  "Interpolation code treats borders, phases and the four neighbour directions separately; tests check one flat image or none.",
  ["rawler/src/imgop/develop.rs", "rawler/src/imgop/raw.rs", "rawler/src/imgop/sensor/bayer/ppg.rs", "rawler/src/imgop/sensor/bayer/bilinear.rs", "rawler/src/imgop/sensor/bayer/superpixel.rs", "rawler/src/imgop/sensor/xtrans/bilinear.rs", "rawler/src/rawimage.rs"],
  [("RawDevelop::develop_intermediate", "rawler/src/imgop/develop.rs"), ("RawImage::apply_scaling", "rawler/src/rawimage.rs"), ("PPGDemosaic", "rawler/src/imgop/sensor/bayer/ppg.rs"), ("Bilinear4Channel", "rawler/src/imgop/sensor/bayer/bilinear.rs"), ("XTransBilinearDemosaic", "rawler/src/imgop/sensor/xtrans/bilinear.rs")])
prop("C14", "The FTP server never touches anything outside the served directory",
  "No FTP command, and no sequence of commands, makes the server read, list, create, overwrite or remove anything outside the served directory, whatever path argument it gets (parent references, absolute paths, repeated or trailing slashes, symbolic links that point outside). The served directory itself is never removed, and listings name only entries inside it. This holds for a relative server root and a root reached through a symbolic link as well.",
  I + ["histories"], "all path arguments and command sequences up to the bound",
  "Escapes need a particular combination of current directory, path components and links; the FTP server has no tests of path handling.",
  ["embedftp/src/client.rs", "embedftp/src/server.rs", "embedftp/src/command.rs", "embedftp/src/config.rs"],
  [("Client::complete_path and the command handlers", "embedftp/src/client.rs"), ("Command::new", "embedftp/src/command.rs")])
prop("C15", "FTP file access only after a correct login",
  "A client can run file and transfer commands only after it named a known user and, where the user has a password, gave exactly that password; anonymous clients are accepted only when anonymous access is enabled. Before that every file command is answered with 530, touches no file and opens no data connection, whatever sequence of USER, PASS and other commands came before. A correct login works after any failed attempts.",
  I + ["histories"], "all command sequences, user names and passwords up to the bound, all user tables",
  "Login is a state machine over two commands and three configuration switches; tests try no wrong login.",
  ["embedftp/src/client.rs", "embedftp/src/server.rs", "embedftp/src/config.rs"],
  [("Client::handle_cmd", "embedftp/src/client.rs")])
prop("C16", "The FTP server answers every command as the protocol says",
  "Every command the server understands gets exactly one completion reply (after at most one preliminary reply), however the control stream is cut into packets and whatever the case of the command name. A success reply is sent only if the operation took place, and a data connection is closed after its transfer. RETR, STOR, LIST and NLST carry exactly the bytes of the file or the entries of the directory; CWD succeeds exactly for directories; PASV and EPSV announce the port the server listens on, and PORT connects only to the client's own address.",
  I + ["histories"], "all command lines, packet cuts, file contents and directory states up to the bound",
  "Failure paths (missing files, refused connections, broken transfers) decide what is replied; tests do not talk to the server.",
  ["embedftp/src/client.rs", "embedftp/src/server.rs", "embedftp/src/command.rs", "embedftp/src/codec.rs", "embedftp/src/ftp.rs"],
  [("Client command handlers", "embedftp/src/client.rs"), ("FtpCodec, BytesCodec", "embedftp/src/codec.rs"), ("Command::new", "embedftp/src/command.rs")])
