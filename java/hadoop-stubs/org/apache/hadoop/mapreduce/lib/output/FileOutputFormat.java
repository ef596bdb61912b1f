package org.apache.hadoop.mapreduce.lib.output;

import org.apache.hadoop.fs.Path;
import org.apache.hadoop.mapreduce.JobContext;
import org.apache.hadoop.mapreduce.OutputFormat;
import org.apache.hadoop.mapreduce.TaskAttemptContext;

import java.io.IOException;

/** Stand-in: every task writes a file of its own; there is no temporary folder from which it is moved. */
public abstract class FileOutputFormat<K, V> extends OutputFormat<K, V> {
    public static final String OUTDIR = "mapreduce.output.fileoutputformat.outputdir";

    public static Path getOutputPath(JobContext job) {
        String name = job.getConfiguration().get(OUTDIR);
        return name == null ? null : new Path(name);
    }
    public static boolean getCompressOutput(JobContext job) { return job.getConfiguration().getBoolean("mapreduce.output.fileoutputformat.compress", false); }
    public static synchronized String getUniqueFile(TaskAttemptContext context, String name, String extension) {
        return String.format("%s-m-%05d%s", name, context.getTaskAttemptID().getId(), extension);
    }
    public Path getDefaultWorkFile(TaskAttemptContext context, String extension) throws IOException {
        return new Path(getOutputPath(context), getUniqueFile(context, "part", extension));
    }
}
