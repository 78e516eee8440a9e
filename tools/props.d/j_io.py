prop("P28", "WAV files are well-formed PCM, reads give the frames asked for, cached data match their key",
     "For any signal, sample type, channel layout, sampling rate, frame offset and frame count: (a) wavwrite produces a file that consists of the RIFF/WAVE header, the 16-byte PCM format chunk and one data chunk, with sizes, byte rate, block alignment and bit depth that agree with the data; the samples are stored frame by frame with the channels of a frame as neighbours, whether or not channels_first is given; floating point samples are scaled by 2^15 and limited to the 16-bit range before they become integers, never wrapped around; integer samples are stored unchanged; unsupported sample types and more than two channels are refused; (b) wavread of such a file starts frame_offset whole frames into the data, reads num_frames frames (without it: all that remain) of all channels with the element type the header states, divides by full scale, returns the documented shape (1-d for mono unless return_2d, channels first when asked), returns the sampling rate of the header, and refuses exactly the frames beyond the end of the data as well as negative counts and files that are not RIFF/WAVE PCM; (c) the sample dataset functions keep prepared data under a path that depends on everything the contents depend on (root, tag or reverberation time, number of sources), different choices use different files, and the path returned is the path of that file.",
     ["inputs", "configurations", "histories"],
     "wavwrite over all accepted and refused sample types, 1-d/2-d layouts and a signal of symbolic length; wavread over files of 1 and 2 channels, 8, 16 and 32 bits and symbolic length, offset and count, with every combination of return_2d and channels_first; both dataset preparation functions over all documented choices",
     "Tests write and read a few short files that never clip, in which a wrong size or alignment field goes unnoticed because the reader of the same library ignores it; the dataset functions need network data and are never run twice with different choices.",
     ["ssspy/io/__init__.py", "ssspy/utils/dataset/sisec2010.py", "ssspy/utils/dataset/mird.py"],
     [("wavwrite, _write_fmt_chunk, _write_data_chunk", "ssspy/io/__init__.py"), ("wavread, _read_fmt_chunk, _read_data_chunk", "ssspy/io/__init__.py"), ("download", "ssspy/utils/dataset/sisec2010.py"), ("download", "ssspy/utils/dataset/mird.py")],
     "abstract interpretation of the file operations: symbolic byte layout of the file written, symbolic offset, count and type of the array read, normal form of the sample written or returned, dependence of cache path and contents on the parameters",
     note="The quantisation error of a round trip is a runtime quantity (N03). 8-bit samples are signed here, as in the code's own reader.")
