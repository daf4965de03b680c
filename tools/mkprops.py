import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
PEG='ast/booklit.peg';PEGGO='ast/booklit.peg.go';EV='stages/evaluate.go';COL='stages/collect.go';SEC='section.go';BL='baselit/plugin.go';HT='render/html.go';TX='render/text.go';WR='render/writer.go';CM='render/common.go';REF='reference.go';ER='errors.go';LD='load/processor.go';SRV='booklitcmd/server.go';CMD='booklitcmd/command.go';AUX='aux_.go'
p('C01','Documents are parsed into the structure their syntax denotes',
 'For every document, the text, paragraphs, lines, function calls and arguments it is parsed into are exactly those its syntax denotes: escapes stand for the escaped character, lines within an argument join with one space, blank lines separate paragraphs, the form of an argument decides between running text and paragraphs, and indentation at the start of a line is not text. A document that is not well-formed is rejected with a parse error, never accepted with part of it ignored.',
 ['inputs'],'all documents over the syntax: text, escapes, calls, nested arguments, blank lines, indentation, malformed ones',
 'The tests parse a few dozen fixed documents; the grammar is ordered-choice with backtracking, so an edit can change the meaning of combinations no example contains.',
 [PEG,PEGGO,'ast/node.go',EV],[('grammar (ordered choice)',PEG),('evaluation of sequences and paragraphs',EV)],['ast.ParseReader result','content tree of a loaded section','rendered page'])
p('C02','Preformatted and verbatim text is kept exactly',
 'The lines of a preformatted or verbatim block appear in the output exactly as written, character for character and line for line including blank lines, less only the indentation of the first line, taken from each line as far as it has it. Within verbatim text nothing is interpreted (no calls, escapes or comments) and closing braces short of the delimiter are text; within preformatted text calls and escapes still work, also when blocks are nested.',
 ['inputs'],'all verbatim and preformatted blocks and inline verbatim arguments: indentation patterns, blank lines, braces, nested calls and blocks',
 'The tests have a handful of blocks with uniform content; indentation, braces and nesting combine without bound.',
 [PEG,PEGGO,EV,'preformatted.go','render/html/preformatted.tmpl'],[('block line and indent rules',PEG),('ifaceLines',PEG),('VisitPreformatted',EV)],['content tree','rendered <pre> text'])
p('C03','Comments leave no trace',
 'Inserting a comment next to a word of a line (apart from the arguments of a call) never changes what is rendered, and nothing written inside a comment, nested comments included, is ever rendered, called, or collected. A comment that is never closed is a parse error.',
 ['inputs'],'all documents and all comments, nested and repeated, in every position where they are allowed, including before, between and after paragraphs and in arguments',
 'The tests show a few comments at fixed positions; the property is about every position and content of comments.',
 [PEG,PEGGO],[('Comment, CommentSpacing and Word rules',PEG)],['content tree','rendered page','functions called'])
p('C04','The line-ending convention of a file does not matter',
 'A document saved with CRLF line endings gives the same output as the same document saved with LF line endings, and is accepted if and only if that one is. Errors are reported on the same line number for both.',
 ['inputs'],'all documents, converted as a whole or line by line',
 'One test samples a few documents; each construct that spans lines handles line breaks on its own.',
 [PEG,PEGGO,ER],[('LineBreak rule',PEG),('source line lookup',ER)],['rendered page','reported error location'])
p('C05','Each call reaches the function it names with the arguments written',
 'A call runs the function of that name provided by the first plugin in use which has it, exactly once per occurrence in the document and in document order, with exactly the arguments written: each converted to what the function takes (text, evaluated content, or unevaluated syntax), and any extra ones to its variadic parameter. A wrong number of arguments, an unknown name, an argument type or a result type that is not supported is an error and the function\'s result is not used.',
 ['inputs','programs'],'all combinations of plugin method signatures, orders of plugin use, argument counts and nesting of calls',
 'The tests register one small plugin; signatures, precedence and arity combine, and skipped or repeated calls are not visible in most of the expected pages.',
 [EV,'ast/node.go','plugin.go',SEC,BL],[('VisitInvoke/convert',EV),('Invoke.Method','ast/node.go'),('UsePlugin',SEC)],['log of calls made by a recording plugin','content tree','error'])
p('C06','All content appears once, in order, unaffected by other content',
 'All text and all content returned by functions appears in the rendered output exactly once, in document order, at the place where it was written. Content which was made at one place and is used again elsewhere is the same every time: building one piece of content never changes another.',
 ['inputs','histories'],'all nestings of sequences, paragraphs, blocks and calls which return, store, reuse or concatenate content',
 'The tests compare a few pages; lost, repeated or shared pieces need particular lengths and orders of appending.',
 ['append.go',EV,'sequence.go'],[('Append','append.go'),('VisitSequence/VisitParagraph/VisitPreformatted',EV)],['content tree','rendered page'])
p('C07','A failing document never yields a successful build',
 'Whenever a call fails, names no known function, gets wrong arguments, or a template or reference fails anywhere in a document or the sections it includes, the whole build fails with that error, naming what failed, and the error is the first one in document order. Nothing which comes after the failing call is evaluated.',
 ['inputs','fault_sequences'],'all documents with failing calls at any place: nested in arguments, in inline or included sections, several at once, with plain and self-describing errors',
 'The tests cover six single errors at top level; where the failure sits decides through which code it must travel.',
 [EV,LD,BL,CMD,ER],[('error returns in VisitInvoke',EV),('EvaluateNode/EvaluateFile',LD)],['error returned by loading or rendering','exit status','log of calls'])
p('C08','Errors point at the place in the source which caused them',
 'Every parse error, undefined or failing function, repeated title and unresolved reference names the file, line and column of the call, tag definition or character that caused it, also when calls, arguments, inline sections and included files are nested around it. The printed report and the error page show that source line with exactly the offending part marked.',
 ['inputs'],'all failing documents: position, nesting, multi-byte text, long lines, last lines without a newline, errors inside errors',
 'The tests only look at the top-level error for fixed documents; the location is kept in mutable state while nested calls are evaluated.',
 [ER,EV,LD,'ast/errors.go',REF,BL],[('ErrorLocation and annotations',ER),('InvokeLocation',EV),('parse error conversion',LD)],['structured error','PrettyPrint output','error page'])
p('C09','Sections form the tree that the documents write',
 'Inline and included sections become children of the section in which they are written, in the order written, wherever the call appears. Paths are relative to the file in which they are written; titles, tags, styles, partials and plugins set in a section affect that section only, except that inline sections also get the plugins in use by their parent at that point; a file that includes itself is an error.',
 ['inputs'],'all trees of inline and included sections over several files and directories, with settings at every place',
 'The tests use trees of up to a few sections, with one directory level.',
 [BL,LD,SEC],[('Section/IncludeSection',BL),('EvaluateFile/EvaluateNode',LD)],['section tree of a loaded document','rendered pages'])
p('C10','Titles and tags of sections are as declared',
 'A section has the title it sets and the tags given with it, the first being its primary tag; when none are given its tag is the title text without auxiliary content, with " & " read as "and", whitespace turned into dashes, other special characters removed, in lower case. Setting a non-empty title a second time is an error which shows where it was first set.',
 ['inputs'],'all titles (styled, nested, with special and multi-byte characters) and lists of tags',
 'The tests cover a few titles.',
 [SEC,BL,AUX],[('SetTitle/defaultTag',SEC),('Title',BL)],['tags of the section tree','file names','error'])
p('C11','A reference resolves to the one tag of that name, or fails',
 'A reference anywhere in the document links to the section or target carrying that tag wherever in the whole tree of sections it is defined, before or after, in any kind of content. If no such tag exists, or more than one, the build fails, naming the reference, the tags that are similar, or every place where the tag is defined; which tags exist never depends on chance.',
 ['inputs'],'all trees of sections and positions of references and targets (in titles, lists, tables, styles, partials, link and reference content), with unknown and duplicate tags',
 'The tests resolve references in small trees with targets in paragraphs only.',
 [REF,SEC,COL],[('resolve',REF),('FindTag/filterTags',SEC),('Collect visitor',COL)],['href of rendered references','UnknownTagError/AmbiguousReferenceError'])
p('C12','Every link generated within the site leads to its target',
 'In the generated site every link made for a reference, a table of contents entry or a search index entry names a page that is written, and its anchor, if any, exists on that page at the section or target it stands for. This holds for every combination of split and unsplit sections.',
 ['inputs','configurations'],'all trees of sections with any combination of split-sections/single-page, and all targets and references in them',
 'URLs, page splitting and anchors are computed in three different places; the tests compare single links to expected text.',
 [CM,WR,'render/html/section.tmpl','render/html/toc.tmpl','render/html/target.tmpl'],[('sectionURL/sectionPageOwner',CM),('WriteSection',WR)],['set of written files and all href/id in them'])
p('C13','Every section is rendered on exactly one page, the right one',
 'A section is on its own page if it is the root or its parent splits its sections, and otherwise is rendered within its parent, so that each section appears exactly once in the site, in document order. Splitting is disabled throughout a section marked single-page, whatever the order of the markers; heading levels follow the depth within the page, up to 6, and are the same for split and single-page sections.',
 ['inputs','configurations'],'all trees of sections with any placement and order of split and single-page markers',
 'The tests write a few fixed trees; file contents of all pages together are not examined.',
 [WR,SEC,BL,CM,'render/html/section.tmpl'],[('WriteSection',WR),('SplitSections/SinglePage',BL),('PageDepth/SplitSectionsPrevented',SEC)],['files written and the headings in each'])
p('C14','Numbers and tables of contents match the section tree',
 'The number of a section is that of its parent followed by its position among its siblings, starting from 1, so that numbers are unique and agree wherever they are shown. A table of contents lists exactly the sections below the one which asks for it, nested, in order, each with its number, its title without auxiliary content and a link to it, leaving out the children of sections that ask for them to be omitted.',
 ['inputs'],'all trees of sections, including more than nine siblings and deep nesting',
 'The tests show three-section documents.',
 [SEC,'render/html/toc.tmpl','render/text/toc.tmpl',BL],[('Number',SEC),('toc.tmpl','render/html/toc.tmpl')],['rendered pages'])
p('C15','Auxiliary content is shown in full and nowhere else',
 'Auxiliary content is shown where it is written, and is removed, at any depth of nesting, from titles shown in references and tables of contents and from default tags. Everything that is not auxiliary stays, in order, and removing it for one use does not change the original.',
 ['inputs'],'all titles and contents built from nested styles, links, lists, tables, references and aux',
 'Two tests have one aux at the end of a title.',
 [AUX,SEC,'render/html/reference.tmpl'],[('StripAux',AUX)],['rendered page','tags','result of StripAux on content trees'])
p('C16','Previous/next navigation walks the document in order',
 'For any section, next is the first page below it if it splits its sections, otherwise the following sibling of it or of its nearest ancestor having one; previous is the preceding sibling or else the parent. Following next from the root through a document whose sections are all split visits every section once, in document order, and ends.',
 ['inputs'],'all trees of sections with any split markers',
 'No test exercises navigation beyond what example templates use.',
 [SEC],[('Next/NextSibling/Prev/Top/Contains',SEC)],['section tree functions','custom template output'])
p('C17','Text never turns into markup',
 'Text written in a document, whatever characters it has, is rendered so that a browser shows exactly that text, in running text, titles, code, attributes, anchors and error pages. Link targets and image paths are encoded but otherwise preserved, and no text can close or open an element or attribute.',
 ['inputs'],'all text in every construct, with markup characters, quotes, multi-byte characters and script URLs',
 'The tests use letters mostly.',
 [HT,'render/html/string.tmpl','render/html/link.tmpl',ER],[('html/template contextual escaping',HT),('rawHTML','render/html.go')],['tokenised HTML of the pages'])
p('C18','Each construct is rendered as the element it denotes',
 'Paragraphs, lists, tables, definitions, links, images, targets, styles, insets, asides, preformatted and code text are rendered as the corresponding HTML elements with all their items, cells and attributes, in order and properly nested. Inline and block code is told apart by its content, and a paragraph holding only a block is that block.',
 ['inputs'],'all nestings of the constructs of the base plugin',
 'The tests show each construct alone, once.',
 ['render/html/*.tmpl','render/html/bindata.go',HT,BL],[('default templates','render/html/bindata.go'),('visitor to template selection',HT)],['tokenised HTML'])
p('C19','Styles and partials select the templates and content named',
 'A section with a style is rendered with the templates of that style, falling back to the default page template if the style has none for pages; styled content is rendered with the template of its name; templates given by the user replace the built-in ones of the same name and leave the others. A partial is available under its name with the last content set, only to the section which set it, and a template which does not exist is an error.',
 ['inputs','configurations'],'all combinations of styles, partials and user template sets',
 'The tests have one style and one partial each.',
 [HT,TX,SEC,BL],[('RenderSection/VisitSection/VisitStyled/setTmpl',HT),('SetPartial/Partial',SEC)],['rendered pages with custom templates'])
p('C20','The text renderer writes plain text faithfully',
 'With the text renderer, the same sections are written to the same pages with the chosen file extension, all text appearing unescaped, in order, with numbers, paragraphs, preformatted lines and indented insets laid out as the templates say, and links using that extension. Content for which no text template exists is an error rather than left out.',
 ['inputs','configurations'],'all documents and trees, with built-in and custom text templates',
 'No test in the suite runs the text renderer over split sections.',
 [TX,'render/text/bindata.go',CM,CMD],[('TextEngine',TX)],['files written by a text build'])
p('C21','The search index describes every tag correctly',
 'The search index has exactly one entry for every tag name in the document tree, giving a location which is where a reference to that tag would lead, its title, the text of its target or section, the depth of its section, and the primary tag of its section. It covers the whole document also when only a part is rendered.',
 ['inputs'],'all trees of sections, tags and targets with and without content',
 'Three tests with small documents.',
 [WR,SEC,COL],[('WriteSearchIndex/loadTags',WR)],['search_index.json'])
p('C22','Output depends on the input only',
 'Building the same files with the same plugins and templates always gives byte-identical output and the same error, no matter how often, in which order, or next to what else it is built, in a new process or with a long-lived processor which loaded other documents or failed before.',
 ['histories','inputs'],'all documents and all sequences of builds by one process, including failing ones and ones in between',
 'Every test builds once; map iteration order and state kept between builds only show over many runs.',
 [LD,COL,EV,HT],[('parse cache',LD),('partials ordering',COL)],['output of repeated and interleaved builds'])
p('C23','The server always shows the current state of the files',
 'Every page served after a change to a source file, the main one or an included one, reflects the content of all files at the time of the request, whatever sequence of edits, replacements (also by older files), syntax errors, removals and requests came before. Once the error is corrected, an error is never shown again.',
 ['histories'],'all interleavings of file edits (newer or older times), breakages, removals and page requests',
 'The suite has no test of the server or of reloading.',
 [LD,SRV],[('parse cache keyed by modification time',LD),('load per request',SRV)],['responses of the server'],[dict(name='parsed',meaning='parse tree and modification time by path',where=LD)])
p('C24','Templates in use are always those on disk',
 'After any sequence of edits, additions, removals and replacements of template files, also through broken versions, rendering uses exactly the templates on disk over the built-in ones. While a template on disk is broken every attempt to use it reports that, and nothing is rendered from a half-loaded set.',
 ['histories'],'all sequences of template edits and loads, for both renderers',
 'The suite never reloads templates.',
 [HT,TX,SRV],[('LoadTemplates',HT),('LoadTemplates',TX)],['rendered page after each step','error from loading'],[dict(name='tmplModTimes',meaning='modification times of the templates loaded',where=HT)])
p('C25','Concurrent requests do not disturb each other',
 'Any number of requests handled at the same time, in any interleaving and also while files change, each get the complete response which they would have got alone for some state of each file between their start and end (the source lines quoted on an error page are those in the file when the page is made). No request corrupts memory, blocks others for ever, or makes a later response stale.',
 ['schedules'],'all interleavings of concurrent requests at their shared steps (cache look-up, file reading, evaluation, cache update, template loading, rendering), with file changes in between',
 'The suite is sequential.',
 [SRV,LD,'lazy.go',HT],[('buildLock',SRV),('parsedL',LD)],['responses under forced schedules','race detector'],[dict(name='parsed',meaning='shared parse cache',where=LD),dict(name='tmpl',meaning='template set shared by requests',where=HT)])
p('C26','The server answers each URL with the right section or file',
 'A request for the page of any tag is answered with the section which has that tag, "/" with the section tagged index, and anything else from the output directory; an unknown page is not found. Whenever loading, templates or rendering fail the response is an error page with status 500 which describes the error, never a partial page with status 200, and the server carries on.',
 ['inputs','histories'],'all request paths over all document trees and failures at every stage',
 'The suite has no test of the server.',
 [SRV,ER],[('loadRequestedSection/ServeHTTP',SRV),('ErrorResponse',ER)],['HTTP responses'])
p('C27','The command does what its options say',
 'A build with an output directory writes there the pages of the whole document and, if asked, the search index; without one it prints the root page; section selection by tag or by path renders that section, the latter with the main document as its parent so that references work. Exit status is 0 exactly if everything succeeded, and otherwise the error is on standard error.',
 ['configurations','inputs'],'all combinations of options over sample documents, valid and failing',
 'The suite never runs the command.',
 [CMD,'booklitcmd/main.go',WR],[('Build/Execute',CMD),('Main','booklitcmd/main.go')],['files written, standard output, exit status'])
p('C28','Plugins given on the command line are in effect, transparently',
 'Running with plugin packages behaves as if the command had been built with them: the same options apply, all named plugins can be used, output and error output pass through, and the exit status is that of the actual run. A plugin that does not build fails the run, and no temporary files are left behind, whether the run succeeds, fails, or is interrupted (SIGINT, SIGTERM).',
 ['configurations','fault_sequences'],'all numbers of plugins, options, and outcomes (success, document failure, build failure, interruption)',
 'The suite never runs the command.',
 [CMD],[('reexec',CMD)],['exit status, output, temporary directory'])
p('C29','Deferred content is computed at most once and shown where it belongs',
 'Deferred content is computed when first needed and exactly once, however often and by however many goroutines it is used, all of which get the same content or the same error. It is rendered at its place like the content it computes, and an error it computes fails the rendering.',
 ['schedules','inputs'],'all numbers of uses, concurrent uses, failing and nested deferred content',
 'No test in the suite uses deferred content.',
 ['lazy.go',HT,TX],[('sync.Once in Force','lazy.go'),('VisitLazy',HT)],['count of computations','rendered page'])
p('C30','Broken references are tolerated only when allowed, and only as such',
 'With broken references allowed, a reference to an unknown or ambiguous tag renders as a placeholder link on its own section showing its own text if it has one, and everything else is rendered as without that option; valid references are unaffected. Without it the build fails, except for references marked optional, which show just their content when the tag is unknown.',
 ['inputs','configurations'],'all documents with any mix of valid, unknown, ambiguous and optional references, with and without the option',
 'No test sets the option.',
 [REF,CMD,'render/html/reference.tmpl'],[('Tag',REF)],['rendered pages','error'])
p('C31','No document crashes or hangs the build',
 'Loading and rendering any document whatsoever, well-formed or not, with any of the provided functions applied to any arguments, ends with output or with an error, and never with a crash, an endless loop, or an error page that cannot be shown.',
 ['inputs'],'arbitrary byte strings, and arbitrary compositions of all functions of the base plugin, including unusual argument kinds',
 'The tests feed sensible documents.',
 [PEGGO,EV,BL,AUX,ER,COL],[('PEG recursion',PEGGO),('reflection calls',EV)],['absence of panics and time-outs'])
p('C32','Syntax highlighting changes the looks of code, not the code',
 'Code passed to the highlighter is shown with exactly the same characters and lines (line endings and a final newline aside) for every language, known or unknown, as a block or inline according to how it was written, with the language available to templates. Transformations replace exactly the matching parts and keep the rest in order.',
 ['inputs'],'all code texts, languages and transformations',
 'No test covers the highlighter.',
 ['chroma/plugin.go','chroma/booklit_lexer.go'],[('SyntaxTransform','chroma/plugin.go'),('Transformer.TransformAll','chroma/plugin.go')],['text content of the rendered code'])
p('C33','Templates are told the truth about the sections around them',
 'What templates and plugins ask of a section or content is the same everywhere it is asked: the parent, the children and the top section; which section contains which (itself included), or has it as a direct child; depth in the document and within the page, and the header level, which stops at six; whether a page has anchors, and which; the URL of every tag, and its HTML URL from text templates; the context of a walk; content shown raw is its summary, as it is; and lines are joined with the given prefix.',
 ['inputs','configurations'],'all trees of sections with any split markers and targets, seen from every page, in HTML and text templates',
 'No test uses most of these functions; where templates do, they show one section.',
 [SEC,HT,'render/text.go','render/common.go'],[('Contains/IsOrHasChild/Top/HasAnchors/AnchorTags/Depth/PageDepth',SEC),('walkContext/headerDepth/rawURL/rawHTML/url','render/html.go'),('joinLines/htmlURL','render/text.go')],['pages rendered with templates which show it'])
for q in P: assert len(q['title'])<=80,(q['id'],len(q['title']))
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P))
