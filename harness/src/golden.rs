//! The tags, annotation types, primary elements and layers of the FoLiA specification (as at the pinned commit)
use folia::*;
pub const ELEMENTS: &[(ElementType, &str, Option<AnnotationType>)] = &[
    (ElementType::ActorFeature, "actor", None),
    (ElementType::Alternative, "alt", Some(AnnotationType::ALTERNATIVE)),
    (ElementType::AlternativeLayers, "altlayers", Some(AnnotationType::ALTERNATIVE)),
    (ElementType::BegindatetimeFeature, "begindatetime", None),
    (ElementType::Caption, "caption", None),
    (ElementType::Cell, "cell", None),
    (ElementType::Chunk, "chunk", Some(AnnotationType::CHUNKING)),
    (ElementType::ChunkingLayer, "chunking", Some(AnnotationType::CHUNKING)),
    (ElementType::Comment, "comment", Some(AnnotationType::COMMENT)),
    (ElementType::Content, "content", Some(AnnotationType::RAWCONTENT)),
    (ElementType::CoreferenceChain, "coreferencechain", Some(AnnotationType::COREFERENCE)),
    (ElementType::CoreferenceLayer, "coreferences", Some(AnnotationType::COREFERENCE)),
    (ElementType::CoreferenceLink, "coreferencelink", Some(AnnotationType::COREFERENCE)),
    (ElementType::Correction, "correction", Some(AnnotationType::CORRECTION)),
    (ElementType::Cue, "cue", None),
    (ElementType::Current, "current", Some(AnnotationType::CORRECTION)),
    (ElementType::Definition, "def", Some(AnnotationType::DEFINITION)),
    (ElementType::DependenciesLayer, "dependencies", Some(AnnotationType::DEPENDENCY)),
    (ElementType::Dependency, "dependency", Some(AnnotationType::DEPENDENCY)),
    (ElementType::DependencyDependent, "dep", None),
    (ElementType::Description, "desc", Some(AnnotationType::DESCRIPTION)),
    (ElementType::Division, "div", Some(AnnotationType::DIVISION)),
    (ElementType::DomainAnnotation, "domain", Some(AnnotationType::DOMAIN)),
    (ElementType::EnddatetimeFeature, "enddatetime", None),
    (ElementType::EntitiesLayer, "entities", Some(AnnotationType::ENTITY)),
    (ElementType::Entity, "entity", Some(AnnotationType::ENTITY)),
    (ElementType::Entry, "entry", Some(AnnotationType::ENTRY)),
    (ElementType::ErrorDetection, "errordetection", Some(AnnotationType::ERRORDETECTION)),
    (ElementType::Event, "event", Some(AnnotationType::EVENT)),
    (ElementType::Example, "ex", Some(AnnotationType::EXAMPLE)),
    (ElementType::External, "external", Some(AnnotationType::EXTERNAL)),
    (ElementType::Feature, "feat", None),
    (ElementType::Figure, "figure", Some(AnnotationType::FIGURE)),
    (ElementType::FontFeature, "font", None),
    (ElementType::ForeignData, "foreign-data", None),
    (ElementType::FunctionFeature, "function", None),
    (ElementType::Gap, "gap", Some(AnnotationType::GAP)),
    (ElementType::Head, "head", Some(AnnotationType::HEAD)),
    (ElementType::HeadFeature, "headfeature", None),
    (ElementType::Headspan, "hd", None),
    (ElementType::Hiddenword, "hiddenw", Some(AnnotationType::HIDDENTOKEN)),
    (ElementType::Hyphbreak, "t-hbr", Some(AnnotationType::HYPHENATION)),
    (ElementType::Label, "label", None),
    (ElementType::LangAnnotation, "lang", Some(AnnotationType::LANG)),
    (ElementType::LemmaAnnotation, "lemma", Some(AnnotationType::LEMMA)),
    (ElementType::LevelFeature, "level", None),
    (ElementType::Linebreak, "br", Some(AnnotationType::LINEBREAK)),
    (ElementType::LinkReference, "xref", None),
    (ElementType::List, "list", Some(AnnotationType::LIST)),
    (ElementType::ListItem, "item", None),
    (ElementType::Metric, "metric", Some(AnnotationType::METRIC)),
    (ElementType::ModalitiesLayer, "modalities", Some(AnnotationType::MODALITY)),
    (ElementType::Modality, "modality", Some(AnnotationType::MODALITY)),
    (ElementType::ModalityFeature, "mod", None),
    (ElementType::Morpheme, "morpheme", Some(AnnotationType::MORPHOLOGICAL)),
    (ElementType::MorphologyLayer, "morphology", Some(AnnotationType::MORPHOLOGICAL)),
    (ElementType::New, "new", Some(AnnotationType::CORRECTION)),
    (ElementType::Note, "note", Some(AnnotationType::NOTE)),
    (ElementType::Observation, "observation", Some(AnnotationType::OBSERVATION)),
    (ElementType::ObservationLayer, "observations", Some(AnnotationType::OBSERVATION)),
    (ElementType::Original, "original", Some(AnnotationType::CORRECTION)),
    (ElementType::Paragraph, "p", Some(AnnotationType::PARAGRAPH)),
    (ElementType::Part, "part", Some(AnnotationType::PART)),
    (ElementType::PhonContent, "ph", Some(AnnotationType::PHON)),
    (ElementType::Phoneme, "phoneme", Some(AnnotationType::PHONOLOGICAL)),
    (ElementType::PhonologyLayer, "phonology", Some(AnnotationType::PHONOLOGICAL)),
    (ElementType::PolarityFeature, "polarity", None),
    (ElementType::PosAnnotation, "pos", Some(AnnotationType::POS)),
    (ElementType::Predicate, "predicate", Some(AnnotationType::PREDICATE)),
    (ElementType::Quote, "quote", Some(AnnotationType::QUOTE)),
    (ElementType::Reference, "ref", Some(AnnotationType::REFERENCE)),
    (ElementType::Relation, "relation", Some(AnnotationType::RELATION)),
    (ElementType::Row, "row", None),
    (ElementType::Scope, "scope", None),
    (ElementType::SemanticRole, "semrole", Some(AnnotationType::SEMROLE)),
    (ElementType::SemanticRolesLayer, "semroles", Some(AnnotationType::SEMROLE)),
    (ElementType::SenseAnnotation, "sense", Some(AnnotationType::SENSE)),
    (ElementType::Sentence, "s", Some(AnnotationType::SENTENCE)),
    (ElementType::Sentiment, "sentiment", Some(AnnotationType::SENTIMENT)),
    (ElementType::SentimentLayer, "sentiments", Some(AnnotationType::SENTIMENT)),
    (ElementType::SizeFeature, "size", None),
    (ElementType::Source, "source", None),
    (ElementType::SpanRelation, "spanrelation", Some(AnnotationType::SPANRELATION)),
    (ElementType::SpanRelationLayer, "spanrelations", Some(AnnotationType::SPANRELATION)),
    (ElementType::Speech, "speech", None),
    (ElementType::Statement, "statement", Some(AnnotationType::STATEMENT)),
    (ElementType::StatementLayer, "statements", Some(AnnotationType::STATEMENT)),
    (ElementType::StatementRelation, "rel", None),
    (ElementType::StrengthFeature, "strength", None),
    (ElementType::String, "str", Some(AnnotationType::STRING)),
    (ElementType::StyleFeature, "style", None),
    (ElementType::SubjectivityAnnotation, "subjectivity", Some(AnnotationType::SUBJECTIVITY)),
    (ElementType::Suggestion, "suggestion", Some(AnnotationType::CORRECTION)),
    (ElementType::SynsetFeature, "synset", None),
    (ElementType::SyntacticUnit, "su", Some(AnnotationType::SYNTAX)),
    (ElementType::SyntaxLayer, "syntax", Some(AnnotationType::SYNTAX)),
    (ElementType::Table, "table", Some(AnnotationType::TABLE)),
    (ElementType::TableHead, "tablehead", None),
    (ElementType::Target, "target", None),
    (ElementType::Term, "term", Some(AnnotationType::TERM)),
    (ElementType::Text, "text", None),
    (ElementType::TextContent, "t", Some(AnnotationType::TEXT)),
    (ElementType::TextMarkupCorrection, "t-correction", Some(AnnotationType::CORRECTION)),
    (ElementType::TextMarkupError, "t-error", Some(AnnotationType::ERRORDETECTION)),
    (ElementType::TextMarkupGap, "t-gap", Some(AnnotationType::GAP)),
    (ElementType::TextMarkupHSpace, "t-hspace", Some(AnnotationType::HSPACE)),
    (ElementType::TextMarkupLanguage, "t-lang", Some(AnnotationType::LANG)),
    (ElementType::TextMarkupReference, "t-ref", Some(AnnotationType::REFERENCE)),
    (ElementType::TextMarkupString, "t-str", Some(AnnotationType::STRING)),
    (ElementType::TextMarkupStyle, "t-style", Some(AnnotationType::STYLE)),
    (ElementType::TextMarkupWhitespace, "t-whitespace", Some(AnnotationType::WHITESPACE)),
    (ElementType::TimeFeature, "time", None),
    (ElementType::TimeSegment, "timesegment", Some(AnnotationType::TIMESEGMENT)),
    (ElementType::TimingLayer, "timing", Some(AnnotationType::TIMESEGMENT)),
    (ElementType::Utterance, "utt", Some(AnnotationType::UTTERANCE)),
    (ElementType::ValueFeature, "value", None),
    (ElementType::Whitespace, "whitespace", Some(AnnotationType::WHITESPACE)),
    (ElementType::Word, "w", Some(AnnotationType::TOKEN)),
    (ElementType::WordReference, "wref", None),
];
pub const ANNOTATIONS: &[(AnnotationType, &str, ElementType, Option<ElementType>)] = &[
    (AnnotationType::ALTERNATIVE, "alternative", ElementType::Alternative, None),
    (AnnotationType::CHUNKING, "chunking", ElementType::Chunk, Some(ElementType::ChunkingLayer)),
    (AnnotationType::COMMENT, "comment", ElementType::Comment, None),
    (AnnotationType::RAWCONTENT, "rawcontent", ElementType::Content, None),
    (AnnotationType::COREFERENCE, "coreference", ElementType::CoreferenceChain, Some(ElementType::CoreferenceLayer)),
    (AnnotationType::CORRECTION, "correction", ElementType::Correction, None),
    (AnnotationType::DEFINITION, "definition", ElementType::Definition, None),
    (AnnotationType::DEPENDENCY, "dependency", ElementType::Dependency, Some(ElementType::DependenciesLayer)),
    (AnnotationType::DESCRIPTION, "description", ElementType::Description, None),
    (AnnotationType::DIVISION, "division", ElementType::Division, None),
    (AnnotationType::DOMAIN, "domain", ElementType::DomainAnnotation, None),
    (AnnotationType::ENTITY, "entity", ElementType::Entity, Some(ElementType::EntitiesLayer)),
    (AnnotationType::ENTRY, "entry", ElementType::Entry, None),
    (AnnotationType::ERRORDETECTION, "errordetection", ElementType::ErrorDetection, None),
    (AnnotationType::EVENT, "event", ElementType::Event, None),
    (AnnotationType::EXAMPLE, "example", ElementType::Example, None),
    (AnnotationType::EXTERNAL, "external", ElementType::External, None),
    (AnnotationType::FIGURE, "figure", ElementType::Figure, None),
    (AnnotationType::GAP, "gap", ElementType::Gap, None),
    (AnnotationType::HEAD, "head", ElementType::Head, None),
    (AnnotationType::HIDDENTOKEN, "hiddentoken", ElementType::Hiddenword, None),
    (AnnotationType::HYPHENATION, "hyphenation", ElementType::Hyphbreak, None),
    (AnnotationType::LANG, "lang", ElementType::LangAnnotation, None),
    (AnnotationType::LEMMA, "lemma", ElementType::LemmaAnnotation, None),
    (AnnotationType::LINEBREAK, "linebreak", ElementType::Linebreak, None),
    (AnnotationType::LIST, "list", ElementType::List, None),
    (AnnotationType::METRIC, "metric", ElementType::Metric, None),
    (AnnotationType::MODALITY, "modality", ElementType::Modality, Some(ElementType::ModalitiesLayer)),
    (AnnotationType::MORPHOLOGICAL, "morphological", ElementType::Morpheme, Some(ElementType::MorphologyLayer)),
    (AnnotationType::NOTE, "note", ElementType::Note, None),
    (AnnotationType::OBSERVATION, "observation", ElementType::Observation, Some(ElementType::ObservationLayer)),
    (AnnotationType::PARAGRAPH, "paragraph", ElementType::Paragraph, None),
    (AnnotationType::PART, "part", ElementType::Part, None),
    (AnnotationType::PHON, "phon", ElementType::PhonContent, None),
    (AnnotationType::PHONOLOGICAL, "phonological", ElementType::Phoneme, Some(ElementType::PhonologyLayer)),
    (AnnotationType::POS, "pos", ElementType::PosAnnotation, None),
    (AnnotationType::PREDICATE, "predicate", ElementType::Predicate, Some(ElementType::SemanticRolesLayer)),
    (AnnotationType::QUOTE, "quote", ElementType::Quote, None),
    (AnnotationType::REFERENCE, "reference", ElementType::Reference, None),
    (AnnotationType::RELATION, "relation", ElementType::Relation, None),
    (AnnotationType::SEMROLE, "semrole", ElementType::SemanticRole, Some(ElementType::SemanticRolesLayer)),
    (AnnotationType::SENSE, "sense", ElementType::SenseAnnotation, None),
    (AnnotationType::SENTENCE, "sentence", ElementType::Sentence, None),
    (AnnotationType::SENTIMENT, "sentiment", ElementType::Sentiment, Some(ElementType::SentimentLayer)),
    (AnnotationType::SPANRELATION, "spanrelation", ElementType::SpanRelation, Some(ElementType::SpanRelationLayer)),
    (AnnotationType::STATEMENT, "statement", ElementType::Statement, Some(ElementType::StatementLayer)),
    (AnnotationType::STRING, "string", ElementType::String, None),
    (AnnotationType::SUBJECTIVITY, "subjectivity", ElementType::SubjectivityAnnotation, None),
    (AnnotationType::SYNTAX, "syntax", ElementType::SyntacticUnit, Some(ElementType::SyntaxLayer)),
    (AnnotationType::TABLE, "table", ElementType::Table, None),
    (AnnotationType::TERM, "term", ElementType::Term, None),
    (AnnotationType::TEXT, "text", ElementType::TextContent, None),
    (AnnotationType::HSPACE, "hspace", ElementType::TextMarkupHSpace, None),
    (AnnotationType::STYLE, "style", ElementType::TextMarkupStyle, None),
    (AnnotationType::WHITESPACE, "whitespace", ElementType::Whitespace, None),
    (AnnotationType::TIMESEGMENT, "timesegment", ElementType::TimeSegment, Some(ElementType::TimingLayer)),
    (AnnotationType::UTTERANCE, "utterance", ElementType::Utterance, None),
    (AnnotationType::TOKEN, "token", ElementType::Word, None),
];

/// printable, hidden, text container, text delimiter, may carry a space attribute, can be referred to by a span, subset
pub struct Props { pub ty: ElementType, pub printable: bool, pub hidden: bool, pub textcontainer: bool, pub delimiter: Option<&'static str>, pub space: bool, pub wrefable: bool, pub subset: Option<&'static str>, pub groups: &'static [ElementGroup], pub types: &'static [ElementType] }
pub const PROPS: &[Props] = &[
    Props { ty: ElementType::ActorFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("actor"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Alternative, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::MorphologyLayer, ElementType::PhonologyLayer] },
    Props { ty: ElementType::AlternativeLayers, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Layer], types: &[ElementType::Comment, ElementType::Description, ElementType::ForeignData] },
    Props { ty: ElementType::BegindatetimeFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("begindatetime"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Caption, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Gap, ElementType::Linebreak, ElementType::Metric, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::TextContent, ElementType::Whitespace] },
    Props { ty: ElementType::Cell, printable: true, hidden: false, textcontainer: false, delimiter: Some(" | "), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Entry, ElementType::Event, ElementType::Example, ElementType::External, ElementType::Feature, ElementType::Figure, ElementType::ForeignData, ElementType::Gap, ElementType::Head, ElementType::Hiddenword, ElementType::Linebreak, ElementType::List, ElementType::Metric, ElementType::Note, ElementType::Paragraph, ElementType::Part, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::TextContent, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::Chunk, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::ChunkingLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Chunk, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData] },
    Props { ty: ElementType::Comment, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Content, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::CoreferenceChain, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::CoreferenceLink, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation] },
    Props { ty: ElementType::CoreferenceLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::CoreferenceChain, ElementType::Correction, ElementType::Description, ElementType::ForeignData] },
    Props { ty: ElementType::CoreferenceLink, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Headspan, ElementType::LevelFeature, ElementType::LinkReference, ElementType::Metric, ElementType::ModalityFeature, ElementType::Relation, ElementType::TimeFeature, ElementType::WordReference] },
    Props { ty: ElementType::Correction, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Current, ElementType::Description, ElementType::ErrorDetection, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::New, ElementType::Original, ElementType::Suggestion] },
    Props { ty: ElementType::Cue, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::Current, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline, ElementGroup::Span, ElementGroup::Structure], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Metric, ElementType::PhonContent, ElementType::String, ElementType::TextContent] },
    Props { ty: ElementType::Definition, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::Figure, ElementType::ForeignData, ElementType::Hiddenword, ElementType::Linebreak, ElementType::List, ElementType::Metric, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::Table, ElementType::TextContent, ElementType::Utterance, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::DependenciesLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Dependency, ElementType::Description, ElementType::ForeignData] },
    Props { ty: ElementType::Dependency, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::DependencyDependent, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Headspan, ElementType::LinkReference, ElementType::Metric, ElementType::Relation] },
    Props { ty: ElementType::DependencyDependent, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::Description, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Division, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Division, ElementType::Entry, ElementType::Event, ElementType::Example, ElementType::External, ElementType::Feature, ElementType::Figure, ElementType::ForeignData, ElementType::Gap, ElementType::Head, ElementType::Linebreak, ElementType::List, ElementType::Metric, ElementType::Note, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::Table, ElementType::TextContent, ElementType::Utterance, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::DomainAnnotation, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Metric] },
    Props { ty: ElementType::EnddatetimeFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("enddatetime"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::EntitiesLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Entity, ElementType::ForeignData] },
    Props { ty: ElementType::Entity, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::Entry, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Definition, ElementType::Description, ElementType::Example, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::Part, ElementType::Relation, ElementType::String, ElementType::Term, ElementType::TextContent] },
    Props { ty: ElementType::ErrorDetection, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Metric] },
    Props { ty: ElementType::Event, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::ActorFeature, ElementType::Alternative, ElementType::AlternativeLayers, ElementType::BegindatetimeFeature, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Division, ElementType::EnddatetimeFeature, ElementType::Entry, ElementType::Event, ElementType::Example, ElementType::External, ElementType::Feature, ElementType::Figure, ElementType::ForeignData, ElementType::Gap, ElementType::Head, ElementType::Hiddenword, ElementType::Linebreak, ElementType::List, ElementType::Metric, ElementType::Note, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::Table, ElementType::TextContent, ElementType::Utterance, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::Example, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::Figure, ElementType::ForeignData, ElementType::Hiddenword, ElementType::Linebreak, ElementType::List, ElementType::Metric, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::Table, ElementType::TextContent, ElementType::Utterance, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::External, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[] },
    Props { ty: ElementType::Feature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Figure, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Caption, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Linebreak, ElementType::Metric, ElementType::Part, ElementType::Relation, ElementType::String, ElementType::TextContent] },
    Props { ty: ElementType::FontFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("font"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::ForeignData, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::FunctionFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("function"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Gap, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Content, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::Part] },
    Props { ty: ElementType::Head, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Event, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Gap, ElementType::Hiddenword, ElementType::Linebreak, ElementType::Metric, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::TextContent, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::HeadFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("head"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Headspan, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::Hiddenword, printable: true, hidden: true, textcontainer: false, delimiter: Some(" "), space: true, wrefable: true, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::Part, ElementType::PhonContent, ElementType::Reference, ElementType::Relation, ElementType::String, ElementType::TextContent] },
    Props { ty: ElementType::Hyphbreak, printable: true, hidden: false, textcontainer: true, delimiter: Some(""), space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::Linebreak] },
    Props { ty: ElementType::Label, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Hiddenword, ElementType::Linebreak, ElementType::Metric, ElementType::Part, ElementType::PhonContent, ElementType::Reference, ElementType::Relation, ElementType::String, ElementType::TextContent, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::LangAnnotation, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Metric] },
    Props { ty: ElementType::LemmaAnnotation, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Metric] },
    Props { ty: ElementType::LevelFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("level"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Linebreak, printable: true, hidden: false, textcontainer: false, delimiter: Some(""), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::Part, ElementType::Relation] },
    Props { ty: ElementType::LinkReference, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::List, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Caption, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Event, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Linebreak, ElementType::ListItem, ElementType::Metric, ElementType::Note, ElementType::Part, ElementType::PhonContent, ElementType::Reference, ElementType::Relation, ElementType::String, ElementType::TextContent] },
    Props { ty: ElementType::ListItem, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Event, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Gap, ElementType::Hiddenword, ElementType::Label, ElementType::Linebreak, ElementType::List, ElementType::Metric, ElementType::Note, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::TextContent, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::Metric, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::ValueFeature] },
    Props { ty: ElementType::ModalitiesLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Modality] },
    Props { ty: ElementType::Modality, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Cue, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::PolarityFeature, ElementType::Relation, ElementType::Scope, ElementType::Source, ElementType::StrengthFeature, ElementType::Target] },
    Props { ty: ElementType::ModalityFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("mod"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Morpheme, printable: true, hidden: false, textcontainer: false, delimiter: Some(""), space: false, wrefable: true, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::FunctionFeature, ElementType::Metric, ElementType::Morpheme, ElementType::Part, ElementType::PhonContent, ElementType::Relation, ElementType::String, ElementType::TextContent] },
    Props { ty: ElementType::MorphologyLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Morpheme] },
    Props { ty: ElementType::New, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline, ElementGroup::Span, ElementGroup::Structure], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Metric, ElementType::PhonContent, ElementType::String, ElementType::TextContent] },
    Props { ty: ElementType::Note, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Example, ElementType::External, ElementType::Feature, ElementType::Figure, ElementType::ForeignData, ElementType::Head, ElementType::Hiddenword, ElementType::Linebreak, ElementType::List, ElementType::Metric, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::Table, ElementType::TextContent, ElementType::Utterance, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::Observation, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::ObservationLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Observation] },
    Props { ty: ElementType::Original, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline, ElementGroup::Span, ElementGroup::Structure], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Metric, ElementType::PhonContent, ElementType::String, ElementType::TextContent] },
    Props { ty: ElementType::Paragraph, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Entry, ElementType::Event, ElementType::Example, ElementType::External, ElementType::Feature, ElementType::Figure, ElementType::ForeignData, ElementType::Gap, ElementType::Head, ElementType::Hiddenword, ElementType::Linebreak, ElementType::List, ElementType::Metric, ElementType::Note, ElementType::Part, ElementType::PhonContent, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::TextContent, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::Part, printable: true, hidden: false, textcontainer: false, delimiter: Some(" "), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline, ElementGroup::Structure], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::Part, ElementType::PhonContent, ElementType::Relation, ElementType::TextContent] },
    Props { ty: ElementType::PhonContent, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature] },
    Props { ty: ElementType::Phoneme, printable: true, hidden: false, textcontainer: false, delimiter: Some(""), space: false, wrefable: true, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::FunctionFeature, ElementType::Metric, ElementType::Part, ElementType::PhonContent, ElementType::Phoneme, ElementType::Relation, ElementType::String, ElementType::TextContent] },
    Props { ty: ElementType::PhonologyLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Phoneme] },
    Props { ty: ElementType::PolarityFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("polarity"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::PosAnnotation, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::HeadFeature, ElementType::Metric] },
    Props { ty: ElementType::Predicate, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::SemanticRole, ElementType::WordReference] },
    Props { ty: ElementType::Quote, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Division, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Gap, ElementType::Hiddenword, ElementType::Linebreak, ElementType::Metric, ElementType::Paragraph, ElementType::Part, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::TextContent, ElementType::Utterance, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::Reference, printable: true, hidden: false, textcontainer: false, delimiter: Some(" "), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Hiddenword, ElementType::Linebreak, ElementType::Metric, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Quote, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::TextContent, ElementType::Utterance, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::Relation, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric] },
    Props { ty: ElementType::Row, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Cell, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::Part, ElementType::Relation] },
    Props { ty: ElementType::Scope, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Cue, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::Source, ElementType::Target, ElementType::WordReference] },
    Props { ty: ElementType::SemanticRole, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Headspan, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::SemanticRolesLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Predicate, ElementType::SemanticRole] },
    Props { ty: ElementType::SenseAnnotation, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::SynsetFeature] },
    Props { ty: ElementType::Sentence, printable: true, hidden: false, textcontainer: false, delimiter: Some(" "), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Entry, ElementType::Event, ElementType::Example, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Gap, ElementType::Hiddenword, ElementType::Linebreak, ElementType::Metric, ElementType::Note, ElementType::Part, ElementType::PhonContent, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::String, ElementType::TextContent, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::Sentiment, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Headspan, ElementType::LinkReference, ElementType::Metric, ElementType::PolarityFeature, ElementType::Relation, ElementType::Source, ElementType::StrengthFeature, ElementType::Target, ElementType::WordReference] },
    Props { ty: ElementType::SentimentLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Sentiment] },
    Props { ty: ElementType::SizeFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("size"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Source, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::SpanRelation, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::Relation] },
    Props { ty: ElementType::SpanRelationLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::SpanRelation] },
    Props { ty: ElementType::Speech, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Division, ElementType::Entry, ElementType::Event, ElementType::Example, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Gap, ElementType::Hiddenword, ElementType::List, ElementType::Metric, ElementType::Note, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::TextContent, ElementType::Utterance, ElementType::Word] },
    Props { ty: ElementType::Statement, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Headspan, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::Source, ElementType::StatementRelation, ElementType::WordReference] },
    Props { ty: ElementType::StatementLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Statement] },
    Props { ty: ElementType::StatementRelation, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::StrengthFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("strength"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::String, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::PhonContent, ElementType::Relation, ElementType::TextContent] },
    Props { ty: ElementType::StyleFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("style"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::SubjectivityAnnotation, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::Metric] },
    Props { ty: ElementType::Suggestion, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline, ElementGroup::Span, ElementGroup::Structure], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::Metric, ElementType::PhonContent, ElementType::String, ElementType::TextContent] },
    Props { ty: ElementType::SynsetFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("synset"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::SyntacticUnit, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::SyntacticUnit, ElementType::WordReference] },
    Props { ty: ElementType::SyntaxLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::SyntacticUnit] },
    Props { ty: ElementType::Table, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Linebreak, ElementType::Metric, ElementType::Part, ElementType::Relation, ElementType::Row, ElementType::TableHead] },
    Props { ty: ElementType::TableHead, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::Part, ElementType::Relation, ElementType::Row] },
    Props { ty: ElementType::Target, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::Term, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Event, ElementType::External, ElementType::Feature, ElementType::Figure, ElementType::ForeignData, ElementType::Gap, ElementType::Hiddenword, ElementType::Linebreak, ElementType::List, ElementType::Metric, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::Table, ElementType::TextContent, ElementType::Utterance, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::Text, printable: true, hidden: false, textcontainer: false, delimiter: Some("\n\n\n"), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::Division, ElementType::Entry, ElementType::Event, ElementType::Example, ElementType::External, ElementType::Feature, ElementType::Figure, ElementType::ForeignData, ElementType::Gap, ElementType::Hiddenword, ElementType::Linebreak, ElementType::List, ElementType::Metric, ElementType::Note, ElementType::Paragraph, ElementType::Part, ElementType::PhonContent, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::Table, ElementType::TextContent, ElementType::Whitespace, ElementType::Word] },
    Props { ty: ElementType::TextContent, printable: true, hidden: false, textcontainer: true, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::Linebreak] },
    Props { ty: ElementType::TextMarkupCorrection, printable: true, hidden: false, textcontainer: true, delimiter: Some(""), space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::Linebreak] },
    Props { ty: ElementType::TextMarkupError, printable: true, hidden: false, textcontainer: true, delimiter: Some(""), space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::Linebreak] },
    Props { ty: ElementType::TextMarkupGap, printable: true, hidden: false, textcontainer: true, delimiter: Some(""), space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::Linebreak] },
    Props { ty: ElementType::TextMarkupHSpace, printable: true, hidden: false, textcontainer: true, delimiter: Some(""), space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::Linebreak] },
    Props { ty: ElementType::TextMarkupLanguage, printable: true, hidden: false, textcontainer: true, delimiter: Some(""), space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::Linebreak] },
    Props { ty: ElementType::TextMarkupReference, printable: true, hidden: false, textcontainer: true, delimiter: Some(""), space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::Linebreak] },
    Props { ty: ElementType::TextMarkupString, printable: true, hidden: false, textcontainer: true, delimiter: Some(""), space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::Linebreak] },
    Props { ty: ElementType::TextMarkupStyle, printable: true, hidden: false, textcontainer: true, delimiter: Some(""), space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::FontFeature, ElementType::Linebreak, ElementType::SizeFeature] },
    Props { ty: ElementType::TextMarkupWhitespace, printable: true, hidden: false, textcontainer: true, delimiter: Some(""), space: false, wrefable: false, subset: None, groups: &[ElementGroup::TextMarkup], types: &[ElementType::Comment, ElementType::Description, ElementType::Feature, ElementType::Linebreak] },
    Props { ty: ElementType::TimeFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("time"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::TimeSegment, printable: true, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[ElementGroup::Inline], types: &[ElementType::ActorFeature, ElementType::BegindatetimeFeature, ElementType::Comment, ElementType::Description, ElementType::EnddatetimeFeature, ElementType::Feature, ElementType::ForeignData, ElementType::LinkReference, ElementType::Metric, ElementType::Relation, ElementType::WordReference] },
    Props { ty: ElementType::TimingLayer, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::ForeignData, ElementType::TimeSegment] },
    Props { ty: ElementType::Utterance, printable: true, hidden: false, textcontainer: false, delimiter: Some(" "), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Gap, ElementType::Hiddenword, ElementType::Metric, ElementType::Note, ElementType::Part, ElementType::PhonContent, ElementType::Quote, ElementType::Reference, ElementType::Relation, ElementType::Sentence, ElementType::String, ElementType::TextContent, ElementType::Word] },
    Props { ty: ElementType::ValueFeature, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: Some("value"), groups: &[], types: &[ElementType::Comment, ElementType::Description] },
    Props { ty: ElementType::Whitespace, printable: true, hidden: false, textcontainer: false, delimiter: Some(""), space: true, wrefable: false, subset: None, groups: &[ElementGroup::Layer], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::Part, ElementType::Relation] },
    Props { ty: ElementType::Word, printable: true, hidden: false, textcontainer: false, delimiter: Some(" "), space: true, wrefable: true, subset: None, groups: &[ElementGroup::Layer, ElementGroup::Inline], types: &[ElementType::Alternative, ElementType::AlternativeLayers, ElementType::Comment, ElementType::Correction, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::ForeignData, ElementType::Metric, ElementType::Part, ElementType::PhonContent, ElementType::Reference, ElementType::Relation, ElementType::String, ElementType::TextContent] },
    Props { ty: ElementType::WordReference, printable: false, hidden: false, textcontainer: false, delimiter: None, space: false, wrefable: false, subset: None, groups: &[], types: &[ElementType::Comment, ElementType::Description] },
];
pub const GROUPS: &[(ElementGroup, &[ElementType])] = &[
    (ElementGroup::Layer, &[ElementType::ChunkingLayer, ElementType::SpanRelationLayer, ElementType::CoreferenceLayer, ElementType::DependenciesLayer, ElementType::EntitiesLayer, ElementType::MorphologyLayer, ElementType::ObservationLayer, ElementType::PhonologyLayer, ElementType::SemanticRolesLayer, ElementType::SentimentLayer, ElementType::StatementLayer, ElementType::SyntaxLayer, ElementType::TimingLayer, ElementType::ModalitiesLayer]),
    (ElementGroup::Content, &[ElementType::TextContent, ElementType::PhonContent, ElementType::Content]),
    (ElementGroup::CorrectionChild, &[ElementType::Current, ElementType::New, ElementType::Original, ElementType::Suggestion]),
    (ElementGroup::HigherOrder, &[ElementType::Relation, ElementType::Alternative, ElementType::AlternativeLayers, ElementType::SpanRelation, ElementType::Correction, ElementType::Comment, ElementType::Description, ElementType::External, ElementType::Feature, ElementType::Metric, ElementType::String, ElementType::ForeignData, ElementType::Gap]),
    (ElementGroup::Inline, &[ElementType::DomainAnnotation, ElementType::ErrorDetection, ElementType::LangAnnotation, ElementType::LemmaAnnotation, ElementType::PosAnnotation, ElementType::SenseAnnotation, ElementType::SubjectivityAnnotation]),
    (ElementGroup::Span, &[ElementType::Chunk, ElementType::CoreferenceChain, ElementType::Modality, ElementType::Dependency, ElementType::Entity, ElementType::Observation, ElementType::Predicate, ElementType::SemanticRole, ElementType::Sentiment, ElementType::Statement, ElementType::SyntacticUnit, ElementType::TimeSegment]),
    (ElementGroup::SpanRole, &[ElementType::CoreferenceLink, ElementType::DependencyDependent, ElementType::Headspan, ElementType::StatementRelation, ElementType::Source, ElementType::Target, ElementType::Cue, ElementType::Scope]),
    (ElementGroup::Structure, &[ElementType::Caption, ElementType::Cell, ElementType::Definition, ElementType::Division, ElementType::Entry, ElementType::Event, ElementType::Example, ElementType::Figure, ElementType::Head, ElementType::Hiddenword, ElementType::Label, ElementType::Linebreak, ElementType::List, ElementType::ListItem, ElementType::Note, ElementType::Paragraph, ElementType::Part, ElementType::Quote, ElementType::Reference, ElementType::Row, ElementType::Sentence, ElementType::Speech, ElementType::Table, ElementType::TableHead, ElementType::Term, ElementType::Text, ElementType::Utterance, ElementType::Whitespace, ElementType::Word]),
    (ElementGroup::Subtoken, &[ElementType::Morpheme, ElementType::Phoneme]),
    (ElementGroup::TextMarkup, &[ElementType::TextMarkupCorrection, ElementType::TextMarkupError, ElementType::TextMarkupGap, ElementType::TextMarkupString, ElementType::TextMarkupStyle, ElementType::Hyphbreak, ElementType::TextMarkupReference, ElementType::TextMarkupWhitespace, ElementType::TextMarkupHSpace, ElementType::TextMarkupLanguage]),
    (ElementGroup::Feature, &[ElementType::ActorFeature, ElementType::BegindatetimeFeature, ElementType::EnddatetimeFeature, ElementType::FunctionFeature, ElementType::HeadFeature, ElementType::LevelFeature, ElementType::ModalityFeature, ElementType::PolarityFeature, ElementType::StrengthFeature, ElementType::StyleFeature, ElementType::SynsetFeature, ElementType::TimeFeature, ElementType::ValueFeature, ElementType::FontFeature, ElementType::SizeFeature]),
];
pub fn props(t: ElementType) -> &'static Props { let mut i = 0; while i < PROPS.len() { if PROPS[i].ty == t { return &PROPS[i] } i += 1 } crate::fail!("every element type is one of the specification") }
pub fn in_group(g: ElementGroup, t: ElementType) -> bool { for (h, l) in GROUPS.iter() { if *h == g { return l.contains(&t) } } false }
/// whether the specification lists a child type under a parent type, by itself or by its group
pub fn accepts(parent: ElementType, child: ElementType) -> bool { let p = props(parent); p.types.contains(&child) || p.groups.iter().any(|g| in_group(*g, child)) }
/// Required data, required and optional attributes, occurrences under a parent and per set, [speakable, xlink,
/// phonetic container, authoritative, primary, identifier generated, set only] and label of every element type
pub const REST: &[Rest] = {
    use {AcceptedData::{AcceptElementGroup as G, AcceptElementType as D}, AttribType as A, ElementType as T};
    &[
        (T::ActorFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::Alternative, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, false, false, false, true, false, false], "Alternative"),
        (T::AlternativeLayers, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, false, false, false, false, false, false], "Alternative Layers"),
        (T::BegindatetimeFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::Caption, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 1, 0, [true, false, false, true, true, true, false], "Caption"),
        (T::Cell, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Cell"),
        (T::Chunk, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Chunk"),
        (T::ChunkingLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::Comment, &[], &[], &[A::ANNOTATOR, A::CONFIDENCE, A::DATETIME, A::ID, A::METADATA, A::N, A::TAG], 0, 0, [false, false, false, true, true, false, false], "Comment"),
        (T::Content, &[], &[], &[A::ANNOTATOR, A::CLASS, A::CONFIDENCE, A::DATETIME, A::METADATA, A::TAG], 1, 0, [false, false, false, true, true, false, false], "Raw Content"),
        (T::CoreferenceChain, &[D(T::CoreferenceLink)], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Coreference Chain"),
        (T::CoreferenceLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::CoreferenceLink, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, false, false, false], "Coreference Link"),
        (T::Correction, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, false, false], "Correction"),
        (T::Cue, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 1, 0, [true, false, false, true, false, false, false], "Cue"),
        (T::Current, &[], &[], &[A::ANNOTATOR, A::CONFIDENCE, A::DATETIME, A::ID, A::N, A::TAG], 1, 0, [true, false, false, true, false, false, false], ""),
        (T::Definition, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Definition"),
        (T::DependenciesLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::Dependency, &[D(T::DependencyDependent), D(T::Headspan)], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Dependency"),
        (T::DependencyDependent, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 1, 0, [true, false, false, true, false, false, false], "Dependent"),
        (T::Description, &[], &[], &[A::ANNOTATOR, A::CONFIDENCE, A::DATETIME, A::ID, A::METADATA, A::N, A::TAG], 1, 0, [false, false, false, true, true, false, false], "Description"),
        (T::Division, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Division"),
        (T::DomainAnnotation, &[], &[A::CLASS], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [false, false, false, true, true, false, false], "Domain"),
        (T::EnddatetimeFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::EntitiesLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::Entity, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Entity"),
        (T::Entry, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Entry"),
        (T::ErrorDetection, &[], &[A::CLASS], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [false, false, false, true, true, false, false], "Error Detection"),
        (T::Event, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Event"),
        (T::Example, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Example"),
        (T::External, &[], &[A::SRC], &[A::ANNOTATOR, A::BEGINTIME, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::TAG], 0, 0, [true, false, false, true, true, false, false], "External"),
        (T::Feature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::Figure, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, false, false, true, true, true, false], "Figure"),
        (T::FontFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::ForeignData, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], ""),
        (T::FunctionFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::Gap, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SRC, A::TAG], 0, 0, [false, false, false, true, true, false, false], "Gap"),
        (T::Head, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Head"),
        (T::HeadFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::Headspan, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 1, 0, [true, false, false, true, false, false, false], "Head"),
        (T::Hiddenword, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, true, false], "Hidden Word/Token"),
        (T::Hyphbreak, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, false, false, false], "Hyphbreak"),
        (T::Label, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Label"),
        (T::LangAnnotation, &[], &[A::CLASS], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 1, [false, false, false, true, true, false, false], "Language"),
        (T::LemmaAnnotation, &[], &[A::CLASS], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 1, [false, false, false, true, true, false, false], "Lemma"),
        (T::LevelFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::Linebreak, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, true, false, true, true, true, false], "Linebreak"),
        (T::LinkReference, &[], &[], &[A::IDREF, A::TAG], 0, 0, [false, false, false, true, true, false, false], ""),
        (T::List, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "List"),
        (T::ListItem, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "List Item"),
        (T::Metric, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, false, false, true, true, false, false], "Metric"),
        (T::ModalitiesLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::Modality, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Modality"),
        (T::ModalityFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::Morpheme, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Morpheme"),
        (T::MorphologyLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::New, &[], &[], &[A::ANNOTATOR, A::CONFIDENCE, A::DATETIME, A::ID, A::N, A::TAG], 1, 0, [true, false, false, true, false, false, false], ""),
        (T::Note, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Note"),
        (T::Observation, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Observation"),
        (T::ObservationLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::Original, &[], &[], &[A::ANNOTATOR, A::CONFIDENCE, A::DATETIME, A::ID, A::N, A::TAG], 1, 0, [true, false, false, false, false, false, false], ""),
        (T::Paragraph, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Paragraph"),
        (T::Part, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Part"),
        (T::PhonContent, &[], &[], &[A::ANNOTATOR, A::CLASS, A::CONFIDENCE, A::DATETIME, A::METADATA, A::TAG], 0, 0, [true, false, true, true, true, false, false], "Phonetic Content"),
        (T::Phoneme, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Phoneme"),
        (T::PhonologyLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::PolarityFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::PosAnnotation, &[], &[A::CLASS], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 1, [false, false, false, true, true, false, false], "Part-of-Speech"),
        (T::Predicate, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Predicate"),
        (T::Quote, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Quote"),
        (T::Reference, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, true, false, true, true, true, false], "Reference"),
        (T::Relation, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, true, false, false], "Relation"),
        (T::Row, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Table Row"),
        (T::Scope, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 1, 0, [true, false, false, true, false, false, false], "Scope"),
        (T::SemanticRole, &[], &[A::CLASS], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Semantic Role"),
        (T::SemanticRolesLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::SenseAnnotation, &[], &[A::CLASS], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [false, false, false, true, true, false, false], "Semantic Sense"),
        (T::Sentence, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Sentence"),
        (T::Sentiment, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Sentiment"),
        (T::SentimentLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::SizeFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::Source, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 1, 0, [true, false, false, true, false, false, false], "Source"),
        (T::SpanRelation, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, false, false, true, true, false, false], "Span Relation"),
        (T::SpanRelationLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::Speech, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Speech Body"),
        (T::Statement, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Statement"),
        (T::StatementLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::StatementRelation, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 1, 0, [true, false, false, true, false, false, false], "Relation"),
        (T::StrengthFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::String, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SRC, A::TAG], 0, 0, [false, false, false, true, true, false, false], "String"),
        (T::StyleFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::SubjectivityAnnotation, &[], &[A::CLASS], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 1, [false, false, false, true, true, false, false], "Subjectivity/Sentiment"),
        (T::Suggestion, &[], &[], &[A::ANNOTATOR, A::CONFIDENCE, A::DATETIME, A::ID, A::N, A::TAG], 0, 0, [true, false, false, false, false, false, false], ""),
        (T::SynsetFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::SyntacticUnit, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Syntactic Unit"),
        (T::SyntaxLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::Table, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Table"),
        (T::TableHead, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Table Header"),
        (T::Target, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 1, 0, [true, false, false, true, false, false, false], "Target"),
        (T::Term, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Term"),
        (T::Text, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Text Body"),
        (T::TextContent, &[], &[], &[A::ANNOTATOR, A::CLASS, A::CONFIDENCE, A::DATETIME, A::METADATA, A::TAG], 0, 0, [false, true, false, true, true, false, false], "Text"),
        (T::TextMarkupCorrection, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, false, false, false], ""),
        (T::TextMarkupError, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, false, false, false], ""),
        (T::TextMarkupGap, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, false, false, false], ""),
        (T::TextMarkupHSpace, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, false, false, false], ""),
        (T::TextMarkupLanguage, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, false, false, false], ""),
        (T::TextMarkupReference, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, false, false, false], ""),
        (T::TextMarkupString, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, false, false, false], ""),
        (T::TextMarkupStyle, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, true, false, false], ""),
        (T::TextMarkupWhitespace, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG], 0, 0, [false, true, false, true, false, false, false], ""),
        (T::TimeFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::TimeSegment, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, false, false], "Time Segment"),
        (T::TimingLayer, &[], &[], &[A::ID, A::TAG], 0, 0, [false, false, false, true, false, false, true], ""),
        (T::Utterance, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Utterance"),
        (T::ValueFeature, &[], &[], &[], 0, 0, [false, false, false, true, true, false, false], "Feature"),
        (T::Whitespace, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG], 0, 0, [true, false, false, true, true, true, false], "Whitespace"),
        (T::Word, &[], &[], &[A::ANNOTATOR, A::BEGINTIME, A::CLASS, A::CONFIDENCE, A::DATETIME, A::ENDTIME, A::ID, A::METADATA, A::N, A::SPACE, A::SPEAKER, A::SRC, A::TAG, A::TEXTCLASS], 0, 0, [true, false, false, true, true, true, false], "Word/Token"),
        (T::WordReference, &[], &[], &[A::IDREF, A::TAG], 0, 0, [false, false, false, true, true, false, false], ""),
    ]
};
pub type Rest = (ElementType, &'static [AcceptedData], &'static [AttribType], &'static [AttribType], u32, u32, [bool; 7], &'static str);
