import javax.annotation.processing.*;
import javax.lang.model.SourceVersion;
import javax.lang.model.element.*;
import javax.lang.model.type.*;
import javax.lang.model.util.*;
import java.io.Writer;
import java.util.*;

/** Generates what the platform's @ScoreInterface processor generates: classes that call another contract. */
@SupportedAnnotationTypes("foundation.icon.score.client.ScoreInterface")
public class Proc extends AbstractProcessor {
    @Override public SourceVersion getSupportedSourceVersion() { return SourceVersion.latest(); }
    @Override public boolean process(Set<? extends TypeElement> as, RoundEnvironment env) {
        for (TypeElement a : as) for (Element e : env.getElementsAnnotatedWith(a)) try { gen((TypeElement) e); } catch (Exception x) { throw new RuntimeException(x); }
        return false;
    }
    private void gen(TypeElement t) throws Exception {
        String pkg = processingEnv.getElementUtils().getPackageOf(t).getQualifiedName().toString();
        String name = t.getSimpleName() + "ScoreInterface";
        if (processingEnv.getElementUtils().getTypeElement(pkg + "." + name) != null) return; // the repository has its own
        StringBuilder s = new StringBuilder("package " + pkg + ";\nimport score.*;\nimport java.math.BigInteger;\n@SuppressWarnings({\"unchecked\",\"rawtypes\"})\npublic final class " + name
            + (t.getKind() == ElementKind.INTERFACE ? " implements " + t.getSimpleName() : "") + " {\n protected final Address address; protected final BigInteger valueForPayable;\n"
            + " public " + name + "(Address address) { this(address, null); }\n public " + name + "(Address address, BigInteger v) { this.address = address; this.valueForPayable = v; }\n"
            + " public Address _getAddress() { return address; }\n public BigInteger _getICX() { return valueForPayable; }\n"
            + " public " + name + " _payable(BigInteger v) { return new " + name + "(address, v); }\n public " + name + " _payable(long v) { return _payable(BigInteger.valueOf(v)); }\n");
        Set<String> done = new HashSet<>();
        for (Element m : processingEnv.getElementUtils().getAllMembers(t)) {
            if (m.getKind() != ElementKind.METHOD || m.getEnclosingElement().toString().equals("java.lang.Object")) continue;
            ExecutableElement x = (ExecutableElement) m;
            if (x.getModifiers().contains(Modifier.STATIC) || x.getModifiers().contains(Modifier.DEFAULT) || !done.add(x.toString())) continue;
            boolean payable = false, event = false;
            for (AnnotationMirror am : x.getAnnotationMirrors()) {
                String n = am.getAnnotationType().toString();
                payable |= n.equals("score.annotation.Payable");
                event |= n.equals("score.annotation.EventLog");
            }
            StringBuilder ps = new StringBuilder(), as = new StringBuilder();
            for (VariableElement p : x.getParameters()) {
                if (ps.length() > 0) ps.append(", ");
                ps.append(p.asType()).append(' ').append(p.getSimpleName());
                as.append(", (Object) ").append(p.getSimpleName());
            }
            TypeMirror rt = x.getReturnType();
            boolean vd = rt.getKind() == TypeKind.VOID;
            String cls = processingEnv.getTypeUtils().erasure(rt).toString();
            if (event) { s.append(" public void " + x.getSimpleName() + "(" + ps + ") { throw new RuntimeException(\"not supported EventLog method\"); }\n"); continue; }
            String pre = vd ? "" : "return ", c = vd ? "" : box(cls) + ".class, ";
            if (payable) {
                s.append(" public " + rt + " " + x.getSimpleName() + "(" + ps + ") { " + pre + "Context.call(" + c + "valueForPayable == null ? BigInteger.ZERO : valueForPayable, address, \"" + x.getSimpleName() + "\"" + as + "); }\n");
                s.append(" public " + rt + " " + x.getSimpleName() + "(BigInteger valueForPayable" + (ps.length() > 0 ? ", " : "") + ps + ") { " + pre + "Context.call(" + c + "valueForPayable, address, \"" + x.getSimpleName() + "\"" + as + "); }\n");
            } else s.append(" public " + rt + " " + x.getSimpleName() + "(" + ps + ") { " + pre + "Context.call(" + c + "address, \"" + x.getSimpleName() + "\"" + as + "); }\n");
        }
        s.append("}\n");
        try (Writer w = processingEnv.getFiler().createSourceFile(pkg + "." + name, t).openWriter()) { w.write(s.toString()); }
    }
    static String box(String c) {
        switch (c) {
            case "int": return "Integer"; case "long": return "Long"; case "boolean": return "Boolean"; case "short": return "Short"; case "byte": return "Byte"; case "char": return "Character";
        }
        return c;
    }
}
