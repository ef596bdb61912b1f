"""Bugs in the Hadoop formats, and further ones in Java. The demonstrations carry the stand-ins beside them."""
import os
import runpy

b5 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b5_java.py"))
J, HEAD = b5["J"], b5["HEAD"]
H = "../../java/hadoop/src/main/java/se/lth/cs/docria/hadoop/"
HADOOP = HEAD.replace("\nimport java.io.*;", '''
import org.apache.hadoop.conf.Configuration;
import org.apache.hadoop.fs.FileSystem;
import org.apache.hadoop.io.NullWritable;
import org.apache.hadoop.mapreduce.*;
import org.apache.hadoop.mapreduce.task.TaskAttemptContextImpl;
import se.lth.cs.docria.hadoop.*;
import java.io.*;''', 1) + '''
    static TaskAttemptContext task(int id) {
        Configuration conf = new Configuration();
        conf.set("mapreduce.output.fileoutputformat.outputdir", "/data");
        conf.set("mapreduce.input.fileinputformat.inputdir", "/data");
        conf.setInt("docria.block.size", 4);
        return new TaskAttemptContextImpl(conf, new TaskAttemptID(id));
    }

    static void write(int id, int from, int to) throws Exception {
        RecordWriter<DocumentWritable, NullWritable> w = new DocriaOutputFormat().getRecordWriter(task(id));
        for(int k = from; k < to; k++) w.write(new DocumentWritable(doc(k)), NullWritable.get());
        w.close(task(id));
    }

    static List<Integer> read() throws Exception {
        List<Integer> out = new ArrayList<>();
        DocriaInputFormat f = new DocriaInputFormat();
        for(InputSplit s : f.getSplits(task(0))) {
            RecordReader<DocumentWritable, NullWritable> r = f.createRecordReader(s, task(0));
            r.initialize(s, task(0));
            while(r.nextKeyValue()) out.add(r.getCurrentKey().getDocument().props().get("k").intValue());
            r.close();
        }
        Collections.sort(out);
        return out;
    }

    static List<Integer> upto(int n) { return IntStream.range(0, n).boxed().collect(Collectors.toList()); }

    static void pass(DocumentWritable a, DocumentWritable b) throws Exception {
        ByteArrayOutputStream buf = new ByteArrayOutputStream();
        a.write(new DataOutputStream(buf));
        b.readFields(new DataInputStream(new ByteArrayInputStream(buf.toByteArray())));
    }
'''


def B(id, prop, edits, body, needs, breaks):
    return {"id": id, "property": prop, "edits": [(J + f, a, b) for f, a, b in edits], "java": HEAD + body + "\n}\n", "prep": None, "needs": needs, "breaks": breaks}


def D(id, edits, body, needs, breaks):
    return {"id": id, "property": "J07", "edits": [(H + f, a, b) for f, a, b in edits], "java": HADOOP + body + "\n}\n", "prep": None, "needs": needs, "breaks": breaks, "hadoop": True}


BUGS = [
    D("hadoop-splittable", [("DocriaInputFormat.java", "        return false;\n    }\n}", '''        // compressed files cannot be split
        return !filename.getName().endsWith(".gz");
    }
}''')], '''
    static void run() throws Throwable {
        write(0, 0, 200);
        FileSystem.blockSize = 500;
        check(read().equals(upto(200)), "documents are missing or more than once");
    }''', "a file that is larger than a block of the file system", "each block of the file gives all documents"),

    D("hadoop-one-lock-per-record", [("DocriaWriter.java", "        synchronized (this) {", "        synchronized (key) {")], '''
    static void run() throws Throwable {
        for(int round = 0; round < 20; round++) {
            FileSystem.reset();
            RecordWriter<DocumentWritable, NullWritable> w = new DocriaOutputFormat().getRecordWriter(task(0));
            Thread[] ts = new Thread[4];
            org.msgpack.core.MessagePack.point = () -> { try { Thread.sleep(0, 200000); } catch(InterruptedException e) { } };
            for(int k = 0; k < 4; k++) {
                int me = k;
                ts[k] = new Thread(() -> {
                    try {
                        for(int j = me; j < 200; j += 4) w.write(new DocumentWritable(doc(j)), NullWritable.get());
                    } catch(Exception e) { throw new RuntimeException(e); }
                });
            }
            for(Thread t : ts) t.start();
            for(Thread t : ts) t.join();
            org.msgpack.core.MessagePack.point = null;
            w.close(task(0));
            check(read().equals(upto(200)), "documents are lost");
        }
    }''', "several threads that write to one task's file at once", "documents and blocks are mixed or lost"),

    D("hadoop-record-keeps-document", [("DocumentWritable.java", '''        dataInput.readFully(blob);

        this.document = null;
''', '''        dataInput.readFully(blob);

''')], '''
    static void run() throws Throwable {
        DocumentWritable w = new DocumentWritable();
        pass(new DocumentWritable(doc(1)), w);
        check(w.getDocument().props().get("k").intValue() == 1, "first");
        pass(new DocumentWritable(doc(2)), w);
        check(w.getDocument().props().get("k").intValue() == 2, "the document of the record before");
    }''', "a record whose document was taken and that is then read into again", "it holds the document of before"),

    D("hadoop-end-not-closed", [("DocriaInputFormat.java", '''                if(rawData == null) {
                    streamReader.close();
                    fsInput = null;''', '''                if(rawData == null) {
                    fsInput = null;''')], '''
    static void run() throws Throwable {
        write(0, 0, 10);
        write(1, 10, 20);
        check(read().equals(upto(20)), "documents");
        check(FileSystem.OPEN.isEmpty(), "left open: " + FileSystem.OPEN);
    }''', "a file read to its end", "it is never closed"),

    D("hadoop-external-partial", [("DocumentWritable.java", '''        readFields(in);
''', '''        byte[] blob = new byte[in.readInt()];
        if(in.read(blob) < 0)
            throw new EOFException();
        setMsgpackBlob(blob);
'''), ("DocumentWritable.java", "import java.io.*;\n", "import java.io.*;\nimport java.io.EOFException;\n")], '''
    static void run() throws Throwable {
        for(int size : new int[]{10, 5000, 200000}) {
            Document d = doc(size);
            byte[] pad = new byte[size];
            new Random(3).nextBytes(pad);
            d.props().put("pad", Values.get(pad));
            ByteArrayOutputStream buf = new ByteArrayOutputStream();
            ObjectOutputStream o = new ObjectOutputStream(buf);
            o.writeObject(new DocumentWritable(d));
            o.close();
            DocumentWritable w = (DocumentWritable) new ObjectInputStream(new ByteArrayInputStream(buf.toByteArray())).readObject();
            check(Arrays.equals(w.getDocument().props().get("pad").binaryValue(), pad), "another document");
        }
    }''', "Java serialization of a record of more than a kilobyte", "only the first block of data is read"),

    D("hadoop-one-file-name", [("DocriaOutputFormat.java", '''getDefaultWorkFile(taskAttemptContext, ".docria");''', '''new Path(getOutputPath(taskAttemptContext), "part.docria");''')], '''
    static void run() throws Throwable {
        write(0, 0, 10);
        write(1, 10, 20);
        check(read().equals(upto(20)), "documents of one task are lost");
    }''', "a job of more than one task", "the tasks write over each other's file"),

    D("hadoop-failure-as-end", [("DocriaInputFormat.java", '''                byte[] rawData = streamReader.nextRaw();
''', '''                byte[] rawData;
                try {
                    rawData = streamReader.nextRaw();
                } catch(java.io.IOError e) {
                    // nothing more to read
                    rawData = null;
                }
''')], '''
    static void run() throws Throwable {
        write(0, 0, 40);
        FileSystem.failRead = FileSystem.FILES.get(FileSystem.FILES.firstKey()).length - 30;
        FileSystem.pieces = 40;
        boolean failed = false;
        try { read(); } catch(Throwable t) { failed = true; }
        check(failed, "a file whose storage failed looks complete");
    }''', "storage that fails in the middle of a file", "it ends like a complete one"),

    D("hadoop-progress-of-split", [("DocriaInputFormat.java", "                return fsInput.getPos() / (float)numBytes;", "                return 1.0f - (numBytes - fsInput.available()) / (float)numBytes;")], '''
    static void run() throws Throwable {
        write(0, 0, 60);
        DocriaInputFormat f = new DocriaInputFormat();
        InputSplit s = f.getSplits(task(0)).get(0);
        RecordReader<DocumentWritable, NullWritable> r = f.createRecordReader(s, task(0));
        FileSystem.pieces = 50;
        r.initialize(s, task(0));
        float last = 0;
        while(r.nextKeyValue()) {
            check(r.getProgress() >= last && r.getProgress() <= 1, "progress " + r.getProgress() + " after " + last);
            last = r.getProgress();
        }
        r.close();
    }''', "progress asked for while a file is being read", "it falls"),

    B("java-type-args-ignored", "J06", [("DataType.java", "        return args.equals(dataType.args);", "        return args.keySet().equals(dataType.args.keySet());")], '''
    static void run() throws Throwable {
        check(DataTypes.noderef("a").equals(DataTypes.noderef("a")), "equal");
        check(!DataTypes.noderef("a").equals(DataTypes.noderef("b")), "references into different layers are one type");
        check(!DataTypes.span("a").equals(DataTypes.span("b")), "spans of different texts are one type");
    }''', "two types that differ in the layer or text they refer to", "they are equal"),

    B("java-boundary-30", "J02", [("io/BoundaryReader.java", '''        this.boundary = inputStream.read();

        if(this.boundary < 12 || this.boundary > 30)''', '''        this.boundary = inputStream.read();

        if(this.boundary < 12 || this.boundary >= 30)''')], '''
    static void run() throws Throwable {
        for(int b = 12; b <= 30; b++) {
            ByteArrayOutputStream out = new ByteArrayOutputStream();
            BoundaryWriter w = new BoundaryWriter(out, b);
            w.write(new byte[]{1, 2, 3});
            w.close();
            check(new BoundaryReader(new ByteArrayInputStream(out.toByteArray())).read() == 1, "boundary " + b);
        }
    }''', "a stream with the largest boundary", "it cannot be opened"),

    B("java-builder-long", "J01", [("Node.java", '''        public Builder put(String fieldName, long value) {
            return put(fieldName, Values.get(value));''', '''        public Builder put(String fieldName, long value) {
            return put(fieldName, new se.lth.cs.docria.values.LongValue((int)value == value ? value : (long)(double)value));''')], '''
    static void run() throws Throwable {
        Document d = new Document();
        Layer l = d.add(Layer.builder("l").addField("n", DataTypes.INT_64).build());
        for(long x : new long[]{0, -1, 1L << 40, (1L << 53) + 1, Long.MAX_VALUE}) {
            Node n = Node.builder(l).put("n", x).build();
            l.add(n);
            check(n.get("n").longValue() == x, "" + x);
        }
    }''', "an integer of more than 53 bits given to a builder", "it is rounded"),

    B("java-getlong-int", "J01", [("Node.java", '''        return get(field).longValue();''', '''        Value value = get(field);
        return value.type().equals(DataTypes.INT_64) ? value.intValue() & 0xffffffffL | value.longValue() & ~0xffffffffL : value.intValue();''')], '''
    static void run() throws Throwable {
        Document d = new Document();
        Layer l = d.add(Layer.builder("l").addField("n", DataTypes.INT_64).addField("f", DataTypes.FLOAT_64).build());
        Node n = l.create().insert();
        n.put("n", Long.MIN_VALUE);
        check(n.getLong("n") == Long.MIN_VALUE, "long " + n.getLong("n"));
        n.put("n", 1L << 40);
        check(n.getLong("n") == 1L << 40, "long " + n.getLong("n"));
        n.put("f", 1e12);
        check(n.getLong("f") == 1000000000000L, "long of a float " + n.getLong("f"));
    }''', "a whole float beyond 32 bits read as long", "another number"),
]
