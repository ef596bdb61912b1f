package docria.mon;

import org.apache.hadoop.conf.Configuration;
import org.apache.hadoop.fs.FileSystem;
import org.apache.hadoop.fs.Path;
import org.apache.hadoop.io.NullWritable;
import org.apache.hadoop.io.Writable;
import org.apache.hadoop.mapreduce.*;
import org.apache.hadoop.mapreduce.lib.input.FileSplit;
import org.apache.hadoop.mapreduce.task.TaskAttemptContextImpl;
import se.lth.cs.docria.Document;
import se.lth.cs.docria.MsgpackCodec;
import se.lth.cs.docria.MsgpackDocument;
import se.lth.cs.docria.hadoop.*;
import se.lth.cs.docria.values.IntValue;

import java.io.*;
import java.util.*;
import java.util.concurrent.CyclicBarrier;

/** Jobs on the Hadoop formats of the repository. */
public final class Hadoop {
    private Hadoop() { }

    static TaskAttemptContext context(int id, Object block) {
        Configuration conf = new Configuration();
        conf.set("mapreduce.output.fileoutputformat.outputdir", "/out");
        conf.set("mapreduce.input.fileinputformat.inputdir", "/out");
        if (block != null) conf.setInt("docria.block.size", Commands.i(block));
        return new TaskAttemptContextImpl(conf, new TaskAttemptID(id));
    }

    public static Object run(List<Object> c) throws Exception {
        switch ((String) c.get(1)) {
            case "write": return write(c);
            case "read": return read(c);
            case "writable": return writable(Commands.l(c.get(2)));
            default: throw new IllegalArgumentException("hadoop " + c.get(1));
        }
    }

    static void pass(Writable from, Writable to) throws IOException {
        ByteArrayOutputStream buf = new ByteArrayOutputStream();
        DataOutputStream out = new DataOutputStream(buf);
        from.write(out);
        out.writeInt(0x5a5a5a5a);
        DataInputStream in = new DataInputStream(new ByteArrayInputStream(buf.toByteArray()));
        to.readFields(in);
        if (in.readInt() != 0x5a5a5a5a || in.read() != -1) throw new IllegalStateException("observed: reads another number of bytes than were written");
    }

    static DocumentWritable record(String how, byte[] data, DocumentWritable reused) throws IOException {
        switch (how) {
            case "doc": return new DocumentWritable(MsgpackCodec.decode(data));
            case "blob": return new DocumentWritable(data);
            case "set doc": reused.setDocument(MsgpackCodec.decode(data)); return reused;
            case "set blob": reused.setMsgpackBlob(data); return reused;
            case "passed": pass(new DocumentWritable(data), reused); return reused;
            case "passed doc": {
                DocumentWritable x = new DocumentWritable();
                pass(new DocumentWritable(MsgpackCodec.decode(data)), x);
                return x;
            }
            default: throw new IllegalArgumentException(how);
        }
    }

    /** ["hadoop", "write", docs per block, [[thread, thread, ...] of tasks, each a list of [how, bytes]], seed, delay, fail at] */
    static Object write(List<Object> c) throws Exception {
        FileSystem.reset();
        FileSystem.failWrite = (Long) c.get(6);
        long seed = (Long) c.get(4);
        int delay = Commands.i(c.get(5));
        List<Object> outcomes = Collections.synchronizedList(new ArrayList<>());
        DocriaOutputFormat format = new DocriaOutputFormat();
        int id = 0;
        for (Object t : Commands.l(c.get(3))) {
            TaskAttemptContext context = context(id++, c.get(2));
            List<Object> threads = Commands.l(t);
            Object done = Commands.outcome(() -> {
                RecordWriter<DocumentWritable, NullWritable> w = format.getRecordWriter(context);
                CyclicBarrier start = new CyclicBarrier(threads.size());
                Object[] failed = new Object[threads.size()];
                Thread[] ts = new Thread[threads.size()];
                for (int k = 0; k < ts.length; k++) {
                    int me = k;
                    ts[k] = new Thread(() -> {
                        Commands.DELAYS.set(new Random(seed * 31 + me));
                        Commands.WAITS.set(new long[1]);
                        try {
                            DocumentWritable reused = new DocumentWritable();
                            start.await();
                            for (Object o : Commands.l(threads.get(me))) {
                                List<Object> r = Commands.l(o);
                                w.write(record((String) r.get(0), Commands.b(r.get(1)), reused), NullWritable.get());
                            }
                        } catch (Throwable x) {
                            failed[me] = Main.failure(x);
                        } finally {
                            Commands.DELAYS.remove();
                        }
                    });
                }
                Commands.limit = delay;
                if (ts.length > 1) org.msgpack.core.MessagePack.point = Commands::delay;
                try {
                    for (Thread x : ts) x.start();
                    for (Thread x : ts) x.join();
                } finally {
                    org.msgpack.core.MessagePack.point = null;
                }
                Object closed = Commands.outcome(() -> {
                    w.close(context);
                    return null;
                });
                Object again = Commands.outcome(() -> {
                    w.close(context);
                    return null;
                });
                return Arrays.asList(Arrays.asList(failed), closed, again);
            });
            outcomes.add(done);
        }
        Map<String, Object> files = new TreeMap<>(FileSystem.FILES);
        return Arrays.asList(outcomes, files, new ArrayList<>(FileSystem.OPEN));
    }

    /** ["hadoop", "read", {path: bytes}, size of the blocks of the file system, pieces, fail at, what, stop after or null] */
    static Object read(List<Object> c) throws Exception {
        FileSystem.reset();
        for (Map.Entry<?, ?> e : ((Map<?, ?>) c.get(2)).entrySet()) FileSystem.FILES.put((String) e.getKey(), (byte[]) e.getValue());
        FileSystem.blockSize = (Long) c.get(3);
        FileSystem.pieces = Commands.i(c.get(4));
        FileSystem.failRead = (Long) c.get(5);
        TaskAttemptContext context = context(0, null);
        DocriaInputFormat format = new DocriaInputFormat();
        List<Object> out = new ArrayList<>();
        for (InputSplit split : format.getSplits(context)) {
            FileSplit copy = new FileSplit();
            pass((FileSplit) split, copy);
            List<Object> records = new ArrayList<>(), progress = new ArrayList<>();
            List<MsgpackDocument> handles = new ArrayList<>();
            RecordReader<DocumentWritable, NullWritable> r = format.createRecordReader(copy, context);
            Object end = Commands.outcome(() -> {
                try {
                    r.initialize(copy, context);
                    progress.add((double) r.getProgress());
                    while (c.get(7) == null || records.size() < Commands.i(c.get(7))) {
                        if (!r.nextKeyValue()) {
                            for (int k = 0; k < 2; k++)
                                if (r.nextKeyValue()) throw new IllegalStateException("observed: a record after the last one");
                            progress.add((double) r.getProgress());
                            break;
                        }
                        if (r.getCurrentValue() != NullWritable.get()) throw new IllegalStateException("observed: another value than NullWritable");
                        DocumentWritable key = r.getCurrentKey();
                        if (key != r.getCurrentKey()) throw new IllegalStateException("observed: the current key changes without reading");
                        switch ((String) c.get(6)) {
                            case "doc": records.add(Image.document(key.getDocument())); break;
                            case "blob": records.add(key.getMsgpackBlob()); break;
                            case "handle":
                                handles.add(key.getMsgpackDocument());
                                records.add(null);
                                break;
                            case "changed": {
                                key.getDocument().props().put("changed", new IntValue(records.size()));
                                DocumentWritable to = new DocumentWritable();
                                pass(key, to);
                                records.add(Image.document(to.getDocument()));
                                break;
                            }
                            default: throw new IllegalArgumentException();
                        }
                        progress.add((double) r.getProgress());
                    }
                } finally {
                    r.close();
                    r.close();
                    for (int k = 0; k < handles.size(); k++) records.set(k, Image.document(handles.get(k).document()));
                }
                return null;
            });
            Map<String, Object> one = new TreeMap<>();
            one.put("path", copy.getPath().toString());
            one.put("start", copy.getStart());
            one.put("length", copy.getLength());
            one.put("records", records);
            one.put("progress", progress);
            one.put("end", end);
            out.add(one);
        }
        return Arrays.asList(out, new ArrayList<>(FileSystem.OPEN), FileSystem.opened);
    }

    /** What holds the document after every operation on one record. */
    static Object writable(List<Object> ops) {
        DocumentWritable[] w = {new DocumentWritable()};
        Document[] held = {null};
        Map<byte[], byte[]> given = new IdentityHashMap<>();
        List<Object> out = new ArrayList<>();
        for (Object o : ops) {
            List<Object> op = Commands.l(o);
            given.forEach((b, copy) -> { if (!Arrays.equals(b, copy)) throw new IllegalStateException("observed: what a record gave before changes when it is used again"); });
            out.add(Commands.outcome(() -> {
                switch ((String) op.get(0)) {
                    case "new": w[0] = new DocumentWritable(); return null;
                    case "read": pass(new DocumentWritable(Commands.b(op.get(1))), w[0]); return null;
                    case "new doc": w[0] = new DocumentWritable(held[0] = MsgpackCodec.decode(Commands.b(op.get(1)))); return null;
                    case "new blob": w[0] = new DocumentWritable(Commands.b(op.get(1))); return null;
                    case "set doc": w[0].setDocument(held[0] = MsgpackCodec.decode(Commands.b(op.get(1)))); return null;
                    case "set blob": w[0].setMsgpackBlob(Commands.b(op.get(1))); return null;
                    case "document": {
                        Document d = w[0].getDocument();
                        return d == null ? null : Image.document(d);
                    }
                    case "blob": {
                        byte[] b = w[0].getMsgpackBlob();
                        if (b != null) given.put(b, b.clone());
                        return b == null ? null : Image.document(MsgpackCodec.decode(b));
                    }
                    case "handle": {
                        MsgpackDocument h = w[0].getMsgpackDocument();
                        given.put(h.data(), h.data().clone());
                        return Image.document(h.document());
                    }
                    case "take": return (held[0] = w[0].getDocument()) == null;
                    case "change": {
                        Document d = w[0].getDocument();
                        if (d == null) return null;
                        d.props().put("changed", new IntValue(Commands.i(op.get(1))));
                        return Image.document(d);
                    }
                    case "change held": {
                        held[0].props().put("changed", new IntValue(Commands.i(op.get(1))));
                        return Image.document(held[0]);
                    }
                    case "pass": {
                        DocumentWritable to = op.get(1) == null ? new DocumentWritable() : new DocumentWritable(Commands.b(op.get(1)));
                        if (op.get(1) != null && (Boolean) op.get(2)) to.getDocument();
                        pass(w[0], to);
                        if ((Boolean) op.get(3)) w[0] = to;
                        return Image.document(to.getDocument());
                    }
                    case "serialize": {
                        ByteArrayOutputStream buf = new ByteArrayOutputStream();
                        ObjectOutputStream oos = new ObjectOutputStream(buf);
                        oos.writeObject(w[0]);
                        oos.writeObject("end");
                        oos.close();
                        ObjectInputStream ois = new ObjectInputStream(new ByteArrayInputStream(buf.toByteArray()));
                        DocumentWritable to = (DocumentWritable) ois.readObject();
                        if (!"end".equals(ois.readObject())) throw new IllegalStateException("observed: reads another number of bytes than were written");
                        if ((Boolean) op.get(1)) w[0] = to;
                        return Image.document(to.getDocument());
                    }
                    default: throw new IllegalArgumentException("operation " + op);
                }
            }));
        }
        return out;
    }
}
