package foundation.icon.score.client;
import java.lang.annotation.*;
@Retention(RetentionPolicy.SOURCE)
public @interface ScoreInterface { String suffix() default "ScoreInterface"; }
