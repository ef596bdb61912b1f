package org.apache.hadoop.mapreduce.lib.input;

import org.apache.hadoop.fs.FileStatus;
import org.apache.hadoop.fs.FileSystem;
import org.apache.hadoop.fs.Path;
import org.apache.hadoop.mapreduce.InputFormat;
import org.apache.hadoop.mapreduce.InputSplit;
import org.apache.hadoop.mapreduce.JobContext;

import java.io.IOException;
import java.util.ArrayList;
import java.util.List;

/** Stand-in: files that may be split are split at the blocks of the file system. */
public abstract class FileInputFormat<K, V> extends InputFormat<K, V> {
    public static final String INPUT_DIR = "mapreduce.input.fileinputformat.inputdir";
    private static final double SPLIT_SLOP = 1.1;

    protected boolean isSplitable(JobContext context, Path filename) { return true; }
    protected long getFormatMinSplitSize() { return 1; }

    protected List<FileStatus> listStatus(JobContext job) throws IOException {
        List<FileStatus> out = new ArrayList<>();
        for (String dir : job.getConfiguration().getStrings(INPUT_DIR))
            for (FileStatus s : FileSystem.get(job.getConfiguration()).listStatus(new Path(dir)))
                if (!s.getPath().getName().startsWith("_") && !s.getPath().getName().startsWith(".")) out.add(s);
        return out;
    }

    @Override
    public List<InputSplit> getSplits(JobContext job) throws IOException {
        List<InputSplit> out = new ArrayList<>();
        for (FileStatus s : listStatus(job)) {
            long left = s.getLen(), size = Math.max(getFormatMinSplitSize(), s.getBlockSize());
            if (left > 0 && isSplitable(job, s.getPath()))
                for (; (double) left / size > SPLIT_SLOP; left -= size) out.add(makeSplit(s.getPath(), s.getLen() - left, size, new String[0]));
            out.add(makeSplit(s.getPath(), s.getLen() - left, left, new String[0]));
        }
        return out;
    }

    protected FileSplit makeSplit(Path file, long start, long length, String[] hosts) { return new FileSplit(file, start, length, hosts); }
}
