package vlog

func Trace(args ...interface{})                          { record(TraceLevel, "", args, nil) }
func Traceln(args ...interface{})                        { record(TraceLevel, "", args, nil) }
func Tracef(f string, args ...interface{})               { record(TraceLevel, f, args, nil) }
func (e *Entry) Trace(args ...interface{})               { record(TraceLevel, "", args, e.Data) }
func (e *Entry) Traceln(args ...interface{})             { record(TraceLevel, "", args, e.Data) }
func (e *Entry) Tracef(f string, args ...interface{})    { record(TraceLevel, f, args, e.Data) }
func (l *Logger) Trace(args ...interface{})              { record(TraceLevel, "", args, nil) }
func (l *Logger) Traceln(args ...interface{})            { record(TraceLevel, "", args, nil) }
func (l *Logger) Tracef(f string, args ...interface{})   { record(TraceLevel, f, args, nil) }
func Debug(args ...interface{})                          { record(DebugLevel, "", args, nil) }
func Debugln(args ...interface{})                        { record(DebugLevel, "", args, nil) }
func Debugf(f string, args ...interface{})               { record(DebugLevel, f, args, nil) }
func (e *Entry) Debug(args ...interface{})               { record(DebugLevel, "", args, e.Data) }
func (e *Entry) Debugln(args ...interface{})             { record(DebugLevel, "", args, e.Data) }
func (e *Entry) Debugf(f string, args ...interface{})    { record(DebugLevel, f, args, e.Data) }
func (l *Logger) Debug(args ...interface{})              { record(DebugLevel, "", args, nil) }
func (l *Logger) Debugln(args ...interface{})            { record(DebugLevel, "", args, nil) }
func (l *Logger) Debugf(f string, args ...interface{})   { record(DebugLevel, f, args, nil) }
func Info(args ...interface{})                           { record(InfoLevel, "", args, nil) }
func Infoln(args ...interface{})                         { record(InfoLevel, "", args, nil) }
func Infof(f string, args ...interface{})                { record(InfoLevel, f, args, nil) }
func (e *Entry) Info(args ...interface{})                { record(InfoLevel, "", args, e.Data) }
func (e *Entry) Infoln(args ...interface{})              { record(InfoLevel, "", args, e.Data) }
func (e *Entry) Infof(f string, args ...interface{})     { record(InfoLevel, f, args, e.Data) }
func (l *Logger) Info(args ...interface{})               { record(InfoLevel, "", args, nil) }
func (l *Logger) Infoln(args ...interface{})             { record(InfoLevel, "", args, nil) }
func (l *Logger) Infof(f string, args ...interface{})    { record(InfoLevel, f, args, nil) }
func Print(args ...interface{})                          { record(InfoLevel, "", args, nil) }
func Println(args ...interface{})                        { record(InfoLevel, "", args, nil) }
func Printf(f string, args ...interface{})               { record(InfoLevel, f, args, nil) }
func (e *Entry) Print(args ...interface{})               { record(InfoLevel, "", args, e.Data) }
func (e *Entry) Println(args ...interface{})             { record(InfoLevel, "", args, e.Data) }
func (e *Entry) Printf(f string, args ...interface{})    { record(InfoLevel, f, args, e.Data) }
func (l *Logger) Print(args ...interface{})              { record(InfoLevel, "", args, nil) }
func (l *Logger) Println(args ...interface{})            { record(InfoLevel, "", args, nil) }
func (l *Logger) Printf(f string, args ...interface{})   { record(InfoLevel, f, args, nil) }
func Warn(args ...interface{})                           { record(WarnLevel, "", args, nil) }
func Warnln(args ...interface{})                         { record(WarnLevel, "", args, nil) }
func Warnf(f string, args ...interface{})                { record(WarnLevel, f, args, nil) }
func (e *Entry) Warn(args ...interface{})                { record(WarnLevel, "", args, e.Data) }
func (e *Entry) Warnln(args ...interface{})              { record(WarnLevel, "", args, e.Data) }
func (e *Entry) Warnf(f string, args ...interface{})     { record(WarnLevel, f, args, e.Data) }
func (l *Logger) Warn(args ...interface{})               { record(WarnLevel, "", args, nil) }
func (l *Logger) Warnln(args ...interface{})             { record(WarnLevel, "", args, nil) }
func (l *Logger) Warnf(f string, args ...interface{})    { record(WarnLevel, f, args, nil) }
func Warning(args ...interface{})                        { record(WarnLevel, "", args, nil) }
func Warningln(args ...interface{})                      { record(WarnLevel, "", args, nil) }
func Warningf(f string, args ...interface{})             { record(WarnLevel, f, args, nil) }
func (e *Entry) Warning(args ...interface{})             { record(WarnLevel, "", args, e.Data) }
func (e *Entry) Warningln(args ...interface{})           { record(WarnLevel, "", args, e.Data) }
func (e *Entry) Warningf(f string, args ...interface{})  { record(WarnLevel, f, args, e.Data) }
func (l *Logger) Warning(args ...interface{})            { record(WarnLevel, "", args, nil) }
func (l *Logger) Warningln(args ...interface{})          { record(WarnLevel, "", args, nil) }
func (l *Logger) Warningf(f string, args ...interface{}) { record(WarnLevel, f, args, nil) }
func Error(args ...interface{})                          { record(ErrorLevel, "", args, nil) }
func Errorln(args ...interface{})                        { record(ErrorLevel, "", args, nil) }
func Errorf(f string, args ...interface{})               { record(ErrorLevel, f, args, nil) }
func (e *Entry) Error(args ...interface{})               { record(ErrorLevel, "", args, e.Data) }
func (e *Entry) Errorln(args ...interface{})             { record(ErrorLevel, "", args, e.Data) }
func (e *Entry) Errorf(f string, args ...interface{})    { record(ErrorLevel, f, args, e.Data) }
func (l *Logger) Error(args ...interface{})              { record(ErrorLevel, "", args, nil) }
func (l *Logger) Errorln(args ...interface{})            { record(ErrorLevel, "", args, nil) }
func (l *Logger) Errorf(f string, args ...interface{})   { record(ErrorLevel, f, args, nil) }
func Fatal(args ...interface{})                          { record(FatalLevel, "", args, nil) }
func Fatalln(args ...interface{})                        { record(FatalLevel, "", args, nil) }
func Fatalf(f string, args ...interface{})               { record(FatalLevel, f, args, nil) }
func (e *Entry) Fatal(args ...interface{})               { record(FatalLevel, "", args, e.Data) }
func (e *Entry) Fatalln(args ...interface{})             { record(FatalLevel, "", args, e.Data) }
func (e *Entry) Fatalf(f string, args ...interface{})    { record(FatalLevel, f, args, e.Data) }
func (l *Logger) Fatal(args ...interface{})              { record(FatalLevel, "", args, nil) }
func (l *Logger) Fatalln(args ...interface{})            { record(FatalLevel, "", args, nil) }
func (l *Logger) Fatalf(f string, args ...interface{})   { record(FatalLevel, f, args, nil) }
func Panic(args ...interface{})                          { record(PanicLevel, "", args, nil) }
func Panicln(args ...interface{})                        { record(PanicLevel, "", args, nil) }
func Panicf(f string, args ...interface{})               { record(PanicLevel, f, args, nil) }
func (e *Entry) Panic(args ...interface{})               { record(PanicLevel, "", args, e.Data) }
func (e *Entry) Panicln(args ...interface{})             { record(PanicLevel, "", args, e.Data) }
func (e *Entry) Panicf(f string, args ...interface{})    { record(PanicLevel, f, args, e.Data) }
func (l *Logger) Panic(args ...interface{})              { record(PanicLevel, "", args, nil) }
func (l *Logger) Panicln(args ...interface{})            { record(PanicLevel, "", args, nil) }
func (l *Logger) Panicf(f string, args ...interface{})   { record(PanicLevel, f, args, nil) }
