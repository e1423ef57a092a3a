package foundation.icon.score.client;
import java.lang.annotation.*;
@Retention(RetentionPolicy.SOURCE)
public @interface ScoreClient { String suffix() default "ScoreClient"; }
