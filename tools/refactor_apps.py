# refactorings of the programs (monitor, tunnelclient, server main); read by refactor.py
MC, SC, CC_, SM = 'monitor/monitorclient.cpp', 'tunnelclient/serverconnection.cpp', 'tunnelclient/clientconnection.cpp', 'server/main.cpp'
MT = ['monitorclient', 'monitor_', 'MonitorClient', 'Monitor', 'NonInteractive']
LOOP = '''    int index = m_dataBuffer.indexOf("}\\n");
    while (index >= 0) {
        QByteArray data = m_dataBuffer.left(index + 1);
        m_dataBuffer.remove(0, index + 2);
        processData(data);
        index = m_dataBuffer.indexOf("}\\n");
    }'''
r('mon-for', MT, (MC, LOOP, '''    for (int index = m_dataBuffer.indexOf("}\\n"); index != -1; index = m_dataBuffer.indexOf("}\\n")) {
        const QByteArray message = m_dataBuffer.left(index + 1);
        m_dataBuffer = m_dataBuffer.mid(index + 2);
        processData(message);
    }'''))
r('mon-break', MT, (MC, LOOP, '''    const QByteArray separator("}\\n");
    while (true) {
        const int end = m_dataBuffer.indexOf(separator);
        if (end < 0)
            break;
        const QByteArray message = m_dataBuffer.mid(0, end + 1);
        m_dataBuffer.remove(0, end + separator.length());
        processData(message);
    }'''))
r('mon-contains', MT, (MC, LOOP, '''    while (m_dataBuffer.contains("}\\n")) {
        int index = m_dataBuffer.indexOf("}\\n");
        QByteArray data = m_dataBuffer.left(index + 1);
        m_dataBuffer.remove(0, index + 2);
        processData(data);
    }'''))
r('mon-helper', MT, (MC, LOOP, '''    QByteArray data;
    while (takeMessage(m_dataBuffer, data)) {
        processData(data);
    }'''), (MC, 'void MonitorClient::onReadyRead()', '''static bool takeMessage(QByteArray &buffer, QByteArray &message)
{
    int index = buffer.indexOf("}\\n");
    if (index < 0)
        return false;

    message = buffer.left(index + 1);
    buffer.remove(0, index + 2);
    return true;
}

void MonitorClient::onReadyRead()'''))
r('mon-local', MT, (MC, '    m_dataBuffer.append(m_socket->readAll());', '    const QByteArray chunk = m_socket->readAll();\n    m_dataBuffer += chunk;'))
r('mon-process', MT, (MC, '''    if(error.error != QJsonParseError::NoError) {
        qWarning() << "Failed to parse JSON data:" << error.errorString();
        return;
    }
''', '''    const bool valid = error.error == QJsonParseError::NoError;
    if (!valid) {
        qWarning() << "Failed to parse JSON data:" << error.errorString();
        return;
    }
'''), (MC, '''    QVariantMap dataMap = jsonDoc.toVariant().toMap();
    emit dataReady(dataMap);''', '''    emit dataReady(jsonDoc.toVariant().toMap());'''))
r('mon-refresh', MT, (MC, '''    QVariantMap request;
    request.insert("method", "refresh");
    QVariantMap params;
    if (m_printAll) {
        params.insert("printAll", m_printAll);
    }

    if (!params.isEmpty())
        request.insert("params", params);

    m_socket->write(QJsonDocument::fromVariant(request).toJson(QJsonDocument::Compact) + "\\n");''', '''    QVariantMap request;
    if (m_printAll) {
        QVariantMap params;
        params.insert("printAll", true);
        request.insert("params", params);
    }
    request.insert("method", "refresh");

    QByteArray data = QJsonDocument::fromVariant(request).toJson(QJsonDocument::Compact);
    data.append('\\n');
    m_socket->write(data);'''))
r('mon-refresh2', MT, (MC, '''    if (m_socket->state() != QLocalSocket::ConnectedState)
        return;

    QVariantMap request;
    request.insert("method", "refresh");''', '''    const bool connected = m_socket->state() == QLocalSocket::ConnectedState;
    if (!connected) {
        qDebug() << "Not connected";
        return;
    }

    QVariantMap request{{"method", "refresh"}};'''))
r('mon-ni-lambda', MT, ('monitor/noninteractivemonitor.cpp', '    connect(m_monitorClient, &MonitorClient::connected, this, &NonInteractiveMonitor::onConnected);', '    connect(m_monitorClient, &MonitorClient::connected, this, [this]() { onConnected(); });'))
r('mon-timer', MT, ('monitor/monitor.cpp', '    m_timer.setInterval(1000);\n    m_timer.setSingleShot(false);\n', '    const int interval = 1000;\n    m_timer.setSingleShot(false);\n    m_timer.setInterval(interval);\n'))
r('mon-disc', MT, ('monitor/monitor.cpp', '''    if (!m_terminal)
        return;

    delete m_terminal;
    m_terminal = nullptr;
    qDebug() << "Monitor disconnected.";
    exit(0);''', '''    if (m_terminal) {
        delete m_terminal;
        m_terminal = nullptr;
        qDebug() << "Monitor disconnected.";
        exit(0);
    }'''))
TT = ['ClientConnection_tls', 'ServerConnection_tls']
for i, (F, fld, cls) in enumerate(((SC, 'm_socketServer', 'ServerConnection'), (CC_, 'm_remoteConnection', 'ClientConnection'))):
    OLD = '''        if (m_insecure) {
            %s->ignoreSslErrors(errors);
        } else {
            qWarning() << "SSL errors occurred:";
            foreach (const QSslError &sslError, errors) {
                qWarning() << "  --> " << sslError.errorString();
            }
        }''' % fld
    r('tun-early-%d' % i, TT, (F, OLD, '''        if (m_insecure) {
            %s->ignoreSslErrors(errors);
            return;
        }

        qWarning() << "SSL errors occurred:";
        for (int i = 0; i < errors.count(); i++)
            qWarning() << "  --> " << errors.at(i).errorString();''' % fld))
    r('tun-helper-%d' % i, TT, (F, OLD, '''        if (!m_insecure) {
            printErrors(errors);
        } else {
            %s->ignoreSslErrors(errors);
        }''' % fld), (F, cls + '::' + cls + '(', '''static void printErrors(const QList<QSslError> &errors)
{
    qWarning() << "SSL errors occurred:";
    for (const QSslError &error : errors)
        qWarning() << "  -->" << error.errorString();
}

''' + cls + '::' + cls + '('))
SMT = ['server_main']
r('main-helper', SMT, (SM, '''    if (!configuration->loadConfiguration(parser.value(configOption))) {
        qCCritical(dcApplication()) << "Invalid configuration file passed" << parser.value(configOption);
        exit(EXIT_FAILURE);
    }''', '''    if (!load(configuration, parser.value(configOption)))
        return EXIT_FAILURE;
'''), (SM, '\nint main(int', '''
static bool load(ProxyConfiguration *configuration, const QString &fileName)
{
    if (configuration->loadConfiguration(fileName))
        return true;

    qCCritical(dcApplication()) << "Invalid configuration file passed" << fileName;
    return false;
}

int main(int'''))
r('main-file', SMT, (SM, 'loadConfiguration(parser.value(configOption))', 'loadConfiguration(configFile)'))
r('main-ssl', SMT, (SM, '''    if (configuration->sslEnabled() && configuration->sslConfiguration().isNull()) {
        qCCritical(dcApplication()) << "SSL is enabled but no SSL configuration specified.";
        exit(EXIT_FAILURE);
    } else {
        qCDebug(dcApplication()) << "Using SSL version:" << QSslSocket::sslLibraryVersionString();
    }''', '''    if (configuration->sslEnabled()) {
        if (configuration->sslConfiguration().isNull()) {
            qCCritical(dcApplication()) << "SSL is enabled but no SSL configuration specified.";
            exit(EXIT_FAILURE);
        }
    }
    qCDebug(dcApplication()) << "Using SSL version:" << QSslSocket::sslLibraryVersionString();'''))
r('main-log', SMT, (SM, '''        QFileInfo fi(configuration->logFileName());
        QDir dir(fi.absolutePath());
        if (!dir.exists() && !dir.mkpath(dir.absolutePath())) {
            qCWarning(dcApplication()) << "Error opening log file" << configuration->logFileName();
            exit(EXIT_FAILURE);
        }
        s_logFile.setFileName(configuration->logFileName());
        if (!s_logFile.open(QFile::WriteOnly | QFile::Append)) {
            qWarning() << "Error opening log file" << configuration->logFileName();
            exit(EXIT_FAILURE);
        }''', '''        if (!openLogFile(configuration->logFileName())) {
            qCWarning(dcApplication()) << "Error opening log file" << configuration->logFileName();
            exit(EXIT_FAILURE);
        }'''), (SM, '\nint main(int', '''
static bool openLogFile(const QString &fileName)
{
    QDir dir(QFileInfo(fileName).absolutePath());
    if (!dir.exists() && !dir.mkpath(dir.absolutePath()))
        return false;

    s_logFile.setFileName(fileName);
    return s_logFile.open(QFile::WriteOnly | QFile::Append);
}

int main(int'''))
r('main-stack', SMT, (SM, '    Engine::instance()->start(configuration);\n\n    return application.exec();', '    Engine *engine = Engine::instance();\n    engine->start(configuration);\n\n    const int result = application.exec();\n    return result;'))
